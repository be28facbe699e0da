use super::jxl::{boxes, put};
use super::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Item {
    pub id: u32,
    pub ty: [u8; 4],
    pub prot: u16,
    /// item name and everything after it, verbatim
    pub rest: Vec<u8>,
    pub flags: u32,
    pub method: u16,
    pub dref: u16,
    /// stored in another file: the extents do not refer to this one
    pub external: bool,
    /// (offset incl. base, length) as recorded
    pub extents: Vec<(u64, u64)>,
    pub located: bool,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub items: Vec<Item>,
    pub primary: Option<u32>,
    /// type, from, to
    pub refs: Vec<([u8; 4], u32, Vec<u32>)>,
    pub parts: Vec<Part>,
}
struct R<'a> {
    b: &'a [u8],
    o: usize,
}
impl<'a> R<'a> {
    fn n(&mut self, k: usize) -> Result<u64, String> {
        let s = self.b.get(self.o..self.o + k).ok_or("box content too short")?;
        self.o += k;
        Ok(s.iter().fold(0u64, |a, c| a << 8 | *c as u64))
    }
    fn rest(&self) -> &'a [u8] {
        &self.b[self.o..]
    }
}
fn sub(b: &[u8], o: u64, n: u64) -> Result<&[u8], String> {
    let e = o.checked_add(n).ok_or("extent overflows")?;
    if e > b.len() as u64 {
        return Err(format!("extent {}+{} outside the {} bytes available", o, n, b.len()));
    }
    Ok(&b[o as usize..e as usize])
}
pub fn parse_full(b: &[u8]) -> Result<(Parsed, Meta), String> {
    let top = boxes(b)?;
    if top.first().map(|x| &x.ty) != Some(b"ftyp") {
        return Err("the first box is not ftyp".into());
    }
    if top[0].data.len() < 8 {
        return Err("ftyp too short".into());
    }
    let metas: Vec<_> = top.iter().filter(|x| &x.ty == b"meta").collect();
    if metas.len() != 1 {
        return Err(format!("{} meta boxes", metas.len()));
    }
    let md = metas[0].data;
    if md.len() < 4 {
        return Err("meta box without version".into());
    }
    let children = boxes(&md[4..]).map_err(|e| format!("in meta: {}", e))?;
    let one = |t: &[u8; 4]| -> Result<Option<&[u8]>, String> {
        let v: Vec<_> = children.iter().filter(|x| &x.ty == t).collect();
        if v.len() > 1 {
            return Err(format!("{} {} boxes", v.len(), String::from_utf8_lossy(t)));
        }
        Ok(v.first().map(|x| x.data))
    };
    let mut m = Meta::default();
    // pitm
    if let Some(d) = one(b"pitm")? {
        let mut r = R { b: d, o: 0 };
        let v = r.n(4)? >> 24;
        m.primary = Some(r.n(if v == 0 { 2 } else { 4 })? as u32);
    }
    // iinf
    if let Some(d) = one(b"iinf")? {
        let mut r = R { b: d, o: 0 };
        let v = r.n(4)? >> 24;
        let n = r.n(if v == 0 { 2 } else { 4 })?;
        let infe = boxes(r.rest()).map_err(|e| format!("in iinf: {}", e))?;
        if infe.len() as u64 != n {
            return Err(format!("iinf announces {} entries but holds {}", n, infe.len()));
        }
        for x in infe {
            if &x.ty != b"infe" {
                return Err(format!("iinf holds a {:?} box", String::from_utf8_lossy(&x.ty)));
            }
            let mut r = R { b: x.data, o: 0 };
            let vf = r.n(4)?;
            let v = vf >> 24;
            let mut it = Item { flags: (vf & 0xff_ffff) as u32, ..Default::default() };
            if v < 2 {
                it.id = r.n(2)? as u32;
                it.prot = r.n(2)? as u16;
            } else {
                it.id = r.n(if v == 2 { 2 } else { 4 })? as u32;
                it.prot = r.n(2)? as u16;
                it.ty = (r.n(4)? as u32).to_be_bytes();
            }
            it.rest = r.rest().to_vec();
            if !it.rest.contains(&0) {
                return Err("infe name not terminated".into());
            }
            if m.items.iter().any(|o| o.id == it.id) {
                return Err(format!("item {} declared twice", it.id));
            }
            m.items.push(it);
        }
    }
    // iref
    if let Some(d) = one(b"iref")? {
        let mut r = R { b: d, o: 0 };
        let v = r.n(4)? >> 24;
        let w = if v == 0 { 2 } else { 4 };
        for x in boxes(r.rest()).map_err(|e| format!("in iref: {}", e))? {
            let mut r = R { b: x.data, o: 0 };
            let from = r.n(w)? as u32;
            let n = r.n(2)?;
            let mut to = vec![];
            for _ in 0..n {
                to.push(r.n(w)? as u32);
            }
            if !r.rest().is_empty() {
                return Err("trailing bytes in a reference".into());
            }
            m.refs.push((x.ty, from, to));
        }
    }
    // iloc
    if let Some(d) = one(b"iloc")? {
        let mut r = R { b: d, o: 0 };
        let v = r.n(4)? >> 24;
        let s = r.n(2)?;
        let (os, ls, bs, is) = ((s >> 12 & 15) as usize, (s >> 8 & 15) as usize, (s >> 4 & 15) as usize, if v == 0 { 0 } else { (s & 15) as usize });
        for x in [os, ls, bs, is] {
            if ![0, 4, 8].contains(&x) {
                return Err(format!("iloc field size {}", x));
            }
        }
        let n = r.n(if v < 2 { 2 } else { 4 })?;
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n {
            let id = r.n(if v < 2 { 2 } else { 4 })? as u32;
            let method = if v > 0 { r.n(2)? as u16 & 15 } else { 0 };
            let dref = r.n(2)? as u16;
            let base = r.n(bs)?;
            let ec = r.n(2)?;
            let mut ex = vec![];
            for _ in 0..ec {
                r.n(is)?;
                let o = r.n(os)?;
                let l = r.n(ls)?;
                ex.push((base.checked_add(o).ok_or("iloc offset overflow")?, l));
            }
            if !seen.insert(id) {
                return Err(format!("item {} located twice", id));
            }
            let it = m.items.iter_mut().find(|i| i.id == id).ok_or(format!("iloc locates the undeclared item {}", id))?;
            it.method = method;
            it.dref = dref;
            it.extents = ex;
            it.located = true;
        }
        if !r.rest().is_empty() {
            return Err(format!("{} trailing bytes in iloc", r.rest().len()));
        }
    }
    // which data references name another file?
    if let Some(d) = one(b"dinf")? {
        let mut own = vec![];
        for x in boxes(d)?.iter().filter(|x| &x.ty == b"dref") {
            for e in boxes(x.data.get(8..).ok_or("dref too short")?)? {
                own.push(e.data.get(3).map(|f| f & 1 == 1).unwrap_or(false));
            }
        }
        for it in m.items.iter_mut() {
            it.external = it.dref > 0 && !own.get(it.dref as usize - 1).copied().unwrap_or(false);
        }
    } else {
        for it in m.items.iter_mut() {
            it.external = it.dref > 0;
        }
    }
    // resolve
    let idat = one(b"idat")?;
    let mut done: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    for pass in 0..2 {
        for it in &m.items {
            if done.contains_key(&it.id) || (it.method == 2) != (pass == 1) {
                continue;
            }
            let mut d = vec![];
            for (o, l) in &it.extents {
                if it.external {
                    d.extend(format!("[{}+{}]", o, l).into_bytes());
                    continue;
                }
                let s = match it.method {
                    0 => sub(b, *o, *l),
                    1 => sub(idat.ok_or("item in idat but there is no idat box")?, *o, *l),
                    2 => {
                        let src = m.refs.iter().find(|x| &x.0 == b"iloc" && x.1 == it.id).and_then(|x| x.2.first()).ok_or("item-offset construction without iloc reference")?;
                        sub(done.get(src).ok_or("item-offset source not resolved")?, *o, *l)
                    }
                    x => Err(format!("construction method {}", x)),
                };
                d.extend(s.map_err(|e| format!("item {}: {}", it.id, e))?);
            }
            done.insert(it.id, d);
        }
    }
    for it in m.items.iter_mut() {
        it.data = done.remove(&it.id).unwrap_or_default();
    }
    for r in &m.refs {
        for i in std::iter::once(&r.1).chain(&r.2) {
            if !m.items.iter().any(|x| x.id == *i) {
                return Err(format!("{} reference mentions the undeclared item {}", String::from_utf8_lossy(&r.0), i));
            }
        }
    }
    // file-offset extents must lie in a media data box, and not be shared with EXIF
    for it in &m.items {
        if it.method == 0 && !it.external {
            for (o, l) in &it.extents {
                if *l > 0 && !top.iter().any(|x| &x.ty == b"mdat" && (x.end - x.data.len()) as u64 <= *o && o + l <= x.end as u64) {
                    return Err(format!("item {} extent {}+{} is not inside an mdat box", it.id, o, l));
                }
            }
        }
    }
    let exif: Vec<&Item> = m.items.iter().filter(|i| &i.ty == b"Exif").collect();
    let cut = |area_start: usize, d: &[u8], method: u16| -> Vec<u8> {
        let mut keep = vec![true; d.len()];
        for e in &exif {
            if e.method == method {
                for (o, l) in &e.extents {
                    for k in *o..*o + *l {
                        let k = k as usize;
                        if k >= area_start && k < area_start + d.len() {
                            keep[k - area_start] = false;
                        }
                    }
                }
            }
        }
        d.iter().zip(keep).filter(|x| x.1).map(|x| *x.0).collect()
    };
    let mut p = Parsed::default();
    for x in &top {
        let n = String::from_utf8_lossy(&x.ty).to_string();
        match &x.ty {
            b"mdat" => {
                let d = cut(x.end - x.data.len(), x.data, 0);
                p.part("mdat", &d);
            }
            b"moov" => {
                let mut d = x.data.to_vec();
                let mut chunks = vec![];
                walk_moov(&mut d, 0, &mut chunks)?;
                for o in chunks {
                    let s = sub(b, o, 4).map_err(|e| format!("track chunk: {}", e))?;
                    if !top.iter().any(|x| &x.ty == b"mdat" && (x.end - x.data.len()) as u64 <= o && o + 4 <= x.end as u64) {
                        return Err("track chunk is not inside an mdat box".into());
                    }
                    p.part("chunk", s);
                }
                p.part("moov", &d);
            }
            b"meta" => {
                p.part("meta", &md[..4]);
                for c in &children {
                    let n = format!("meta/{}", String::from_utf8_lossy(&c.ty));
                    match &c.ty {
                        b"iloc" | b"iinf" | b"iref" => (),
                        b"idat" => {
                            let d = cut(0, c.data, 1);
                            p.part(n, &d);
                        }
                        _ => p.part(n, c.data),
                    }
                }
                for it in m.items.iter().filter(|i| &i.ty != b"Exif") {
                    let mut d = format!("{} type {} prot {} flags {} method {} located {} dref {} rest ", it.id, String::from_utf8_lossy(&it.ty), it.prot, it.flags, it.method, it.located, it.dref).into_bytes();
                    d.extend(&it.rest);
                    d.extend(b" data ");
                    d.extend(&it.data);
                    p.part(format!("item-{}", String::from_utf8_lossy(&it.ty)), &d);
                }
                for (t, f, to) in &m.refs {
                    if exif.iter().any(|e| e.id == *f) {
                        continue;
                    }
                    p.part("reference", format!("{} {} {:?}", String::from_utf8_lossy(t), f, to).as_bytes());
                }
            }
            _ => p.part(n, x.data),
        }
    }
    for e in &exif {
        if e.data.len() <= 4 {
            p.empty_carriers += 1;
            continue;
        }
        let off = be32(&e.data, 0).unwrap() as usize;
        let t = e.data.get(4 + off..).ok_or(format!("Exif item header offset {} outside the item", off))?;
        if t.is_empty() {
            p.empty_carriers += 1;
        } else {
            p.carriers.push(strip_prefix(t).to_vec());
        }
    }
    p.parts.retain(|x| x.name != "mdat" || !x.data.is_empty());
    m.parts = p.parts.clone();
    Ok((p, m))
}
/// collects the chunk offsets of all tracks and blanks them
fn walk_moov(d: &mut [u8], depth: usize, out: &mut Vec<u64>) -> Result<(), String> {
    const PATH: [&[u8; 4]; 4] = [b"trak", b"mdia", b"minf", b"stbl"];
    let spans: Vec<([u8; 4], usize, usize)> = boxes(d).map_err(|e| format!("in moov: {}", e))?.iter().map(|x| (x.ty, x.end - x.data.len(), x.end)).collect();
    for (ty, s, e) in spans {
        if depth < 4 && &ty == PATH[depth] {
            walk_moov(&mut d[s..e], depth + 1, out)?;
        } else if depth == 4 && (&ty == b"stco" || &ty == b"co64") {
            let w = if &ty == b"stco" { 4 } else { 8 };
            let n = be32(d, s + 4).ok_or("chunk table too short")? as usize;
            if s + 8 + n * w != e {
                return Err("chunk table has the wrong size".into());
            }
            for c in d[s + 8..e].chunks_exact_mut(w) {
                out.push(c.iter().fold(0u64, |a, x| a << 8 | *x as u64));
                c.fill(0);
            }
        }
    }
    Ok(())
}
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    parse_full(b).map(|x| x.0)
}

fn full(v: u8, flags: u32) -> Vec<u8> {
    (flags | (v as u32) << 24).to_be_bytes().to_vec()
}
struct Gi {
    id: u32,
    ty: [u8; 4],
    rest: Vec<u8>,
    method: u16,
    /// area index (0,1: mdat; 2: idat; 3: item offset), relative start, length
    extents: Vec<(usize, usize, usize)>,
    prot: u16,
    hidden: bool,
    data: Vec<u8>,
    v3: bool,
    dref: u16,
}
pub fn exif_item(r: &mut Rng, e: &[u8], note: &mut Vec<&'static str>) -> Vec<u8> {
    match r.below(5) {
        0 | 1 => [&[0u8, 0, 0, 6][..], b"Exif\0\0", e].concat(),
        2 | 3 => {
            note.push("exif-offset-0");
            [&[0u8; 4][..], e].concat()
        }
        _ => {
            note.push("exif-offset-other");
            let k = r.range(1, 12);
            let mut pad = r.bytes(k);
            pad[0] = 0;
            [&(k as u32).to_be_bytes()[..], &pad, e].concat()
        }
    }
}
/// box types without a part in locating items
const EXTRA: [&[u8; 4]; 76] = [b"pdin", b"mvhd", b"tkhd", b"mdhd", b"nmhd", b"elng", b"stsd", b"stdp", b"stts", b"ctts", b"cslg", b"stss", b"stsh", b"sdtp", b"elst", b"dref", b"stsz", b"stz2", b"stsc", b"padb", b"subs", b"saiz", b"saio", b"mehd", b"trex", b"mfhd", b"tfhd", b"trun", b"tfra", b"mfro", b"tfdt", b"leva", b"trep", b"assp", b"sbgp", b"sgpd", b"cprt", b"tsel", b"kind", b"bxml", b"ipro", b"mere", b"schm", b"fiin", b"fpar", b"fecr", b"gitn", b"fire", b"stri", b"stsg", b"stvi", b"sidx", b"ssix", b"prft", b"srpp", b"vmhd", b"smhd", b"srat", b"chnl", b"dmix", b"ludt", b"txtC", b"uriI", b"hmhd", b"sthd", b"uuid", b"dinf", b"free", b"skip", b"udta", b"jumb", b"xml ", b"url ", b"urn ", b"uri ", b"c\xe9\xff\x01"];
pub fn gen(r: &mut Rng, o: &Opts) -> Img {
    gen_with(r, o, false)
}
/// `shared`: the bytes of the EXIF item belong to another item as well
pub fn gen_with(r: &mut Rng, o: &Opts, shared: bool) -> Img {
    let mut note = vec![];
    let wide = r.chance(1, 6); // 32-bit item ids
    let iloc_v = if wide { 2 } else { r.below(3) };
    let mut ids: Vec<u32> = vec![];
    let n = if r.chance(1, 25) { r.range(7, 90) } else { r.range(1, 6) };
    let sparse = r.chance(1, 3);
    let mut nid = if sparse { r.range(1, 500) as u32 } else { 1 };
    for i in 0..n {
        ids.push(nid);
        nid += if sparse { r.range(1, 90) as u32 } else { 1 };
        if wide && i == 0 && r.chance(1, 2) {
            nid += 0x1_0000;
            note.push("wide-ids");
        }
    }
    if !wide && r.chance(1, 15) {
        let i = r.below(ids.len());
        ids[i] = if r.chance(1, 2) { 0xffff } else { 0xfffe };
        note.push("highest-id");
    }
    if r.chance(1, 4) {
        r.shuffle(&mut ids);
        note.push("ids-unsorted");
    }
    let two_mdat = r.chance(1, 6);
    let use_idat = r.chance(1, 3) && iloc_v > 0;
    let name = |r: &mut Rng| -> Vec<u8> {
        let mut v = match r.below(4) {
            0 => b"an item".to_vec(),
            1 => "Größe".as_bytes().to_vec(),
            _ => vec![],
        };
        v.push(0);
        v
    };
    let av = r.chance(1, 2);
    let mut items: Vec<Gi> = vec![];
    for (i, id) in ids.iter().enumerate() {
        let ty = if i == 0 { if av { *b"av01" } else { *b"hvc1" } } else { **r.pick(&[b"hvc1", b"av01", b"grid", b"mime", b"uri ", b"iovl", b"jpeg"]) };
        let mut rest = name(r);
        if &ty == b"mime" {
            rest.extend(b"application/rdf+xml\0");
            if r.chance(1, 3) {
                rest.extend(b"deflate\0");
            }
        } else if &ty == b"uri " {
            rest.extend(b"urn:x\0");
        }
        if rest.len() > 1 && rest[0] != 0 {
            note.push("item-name");
        }
        let k = match r.below(6) {
            0 => r.below(o.bulk / 2 + 1),
            1 => 0,
            _ => r.below(100),
        };
        items.push(Gi { id: *id, ty, rest, method: 0, extents: vec![], prot: 0, hidden: r.chance(1, 4), data: super::jpeg::tricky(r, k), v3: wide || r.chance(1, 10), dref: 0 });
    }
    let primary = items[0].id;
    for e in &o.exif {
        let d = exif_item(r, e, &mut note);
        let mut rest = name(r);
        if rest.len() > 1 {
            note.push("exif-item-name");
            if r.chance(1, 2) {
                rest = b"Exif\0".to_vec();
            }
        }
        let at = r.below(items.len() + 1);
        items.insert(at, Gi { id: nid, ty: *b"Exif", rest, method: 0, extents: vec![], prot: 0, hidden: r.chance(2, 3), data: d, v3: wide || r.chance(1, 10), dref: 0 });
        nid += 1;
    }
    if items.iter().any(|i| i.v3) {
        note.push("infe-v3");
    }
    // placement
    let mut areas: Vec<Vec<u8>> = vec![vec![], vec![], vec![]];
    // neither offsets nor base offsets: everything starts at the begin of idat
    let unplaced = iloc_v > 0 && o.exif.is_empty() && r.chance(1, 12);
    let bs = if unplaced { 0 } else { *r.pick(&[0usize, 0, 4, 8]) };
    let os = if unplaced {
        note.push("offset-sizes-0");
        0
    } else if bs > 0 && r.chance(1, 5) {
        note.push("offset-size-0");
        0
    } else {
        *r.pick(&[4usize, 4, 4, 8])
    };
    let ls = *r.pick(&[4usize, 4, 4, 8]);
    let is = if iloc_v > 0 { *r.pick(&[0usize, 0, 0, 4, 8]) } else { 0 };
    let multi = os > 0 && r.chance(1, 3);
    let mut order: Vec<usize> = (0..items.len()).collect();
    r.shuffle(&mut order);
    let mut queue: Vec<(usize, usize, Vec<u8>)> = vec![]; // item, extent nr, data
    for &i in &order {
        let d = items[i].data.clone();
        let k = if multi && r.chance(1, 2) && d.len() > 3 { r.range(2, 3) } else { 1 };
        if k > 1 {
            note.push("multi-extent");
            if &items[i].ty == b"Exif" {
                note.push("exif-multi-extent");
            }
        }
        let in_idat = use_idat && r.chance(1, 2);
        if in_idat {
            items[i].method = 1;
            note.push("idat");
            if &items[i].ty == b"Exif" {
                note.push("exif-in-idat");
            }
        }
        let mut rest = &d[..];
        for j in 0..k {
            let l = if j + 1 == k { rest.len() } else { r.range(1, rest.len() - (k - 1 - j)) };
            queue.push((i, j, rest[..l].to_vec()));
            rest = &rest[l..];
        }
    }
    if multi && r.chance(1, 2) {
        // interleave extents of different items
        r.shuffle(&mut queue);
    }
    let mut placed: Vec<Vec<(usize, usize, usize, usize)>> = vec![vec![]; items.len()];
    if unplaced {
        queue.clear();
        let long = items.iter().max_by_key(|i| i.data.len()).unwrap().data.clone();
        for (i, it) in items.iter_mut().enumerate() {
            it.method = 1;
            it.data = long[..it.data.len()].to_vec();
            placed[i].push((0, 2, 0, it.data.len()));
        }
        areas[2] = long;
    }
    for (i, j, d) in queue {
        let a = if items[i].method == 1 { 2 } else if two_mdat { r.below(2) } else { 0 };
        if r.chance(1, 5) {
            let k = r.range(1, 20);
            let g = super::jpeg::tricky(r, k);
            areas[a].extend(g);
        }
        placed[i].push((j, a, areas[a].len(), d.len()));
        areas[a].extend(d);
    }
    for (i, p) in placed.iter_mut().enumerate() {
        p.sort();
        items[i].extents = p.iter().map(|x| (x.1, x.2, x.3)).collect();
        if p.len() == 1 && p[0].3 == 0 {
            items[i].extents.clear();
        }
    }
    if r.chance(1, 6) {
        for a in areas.iter_mut() {
            let k = r.below(20);
            a.extend(r.bytes(k));
        }
    }
    // data references: to other files, and spelled out to this one
    let mut dref: Vec<bool> = vec![];
    if !unplaced && r.chance(1, 6) {
        for _ in 0..r.range(1, 3) {
            dref.push(r.chance(1, 3));
        }
        for it in items.iter_mut().filter(|i| &i.ty != b"Exif" && i.method == 0) {
            if r.chance(1, 2) {
                continue;
            }
            let k = r.below(dref.len());
            it.dref = k as u16 + 1;
            if dref[k] {
                note.push("own-data-reference");
                continue;
            }
            note.push("external-data-reference");
            let n = if os == 0 { 1 } else { r.range(1, 2) };
            it.extents = (0..n).map(|_| (4, if r.chance(1, 3) { r.below(200) } else { r.below(6000) }, r.range(1, 300))).collect();
            if os == 4 && bs == 0 && r.chance(1, 8) {
                it.extents[0].1 = 0xffff_fff0;
            }
        }
    }
    if shared && os > 0 {
        let e = items.iter().find(|i| &i.ty == b"Exif" && i.method == 0 && i.extents.len() == 1).map(|i| i.extents[0]);
        if let Some((a, p, n)) = e.filter(|e| e.2 > 0) {
            note.push("shared-exif");
            let from = r.below(p + n).max(p.saturating_sub(40));
            let to = r.range(from.max(p) + 1, areas[a].len());
            let mut ext = vec![(a, from, to - from)];
            if r.chance(1, 2) && p > 0 {
                let q = r.below(p);
                ext.insert(r.below(2), (a, q, r.range(1, p - q)));
            }
            let data = ext.iter().flat_map(|(a, o, l)| areas[*a][*o..o + l].to_vec()).collect();
            let at = r.below(items.len() + 1);
            items.insert(at, Gi { id: nid, ty: *b"tile", rest: vec![0], method: 0, extents: ext, prot: 0, hidden: true, data, v3: wide, dref: 0 });
            nid += 1;
        }
    }
    // items derived from others have no data of their own, so there is no need to locate them
    let mut refs: Vec<([u8; 4], u32, Vec<u32>)> = vec![];
    if r.chance(1, 8) {
        for _ in 0..r.range(1, 2) {
            note.push("item-without-location");
            items.push(Gi { id: nid, ty: *b"iden", rest: vec![0], method: 0, extents: vec![], prot: 0, hidden: r.chance(2, 3), data: vec![], v3: wide || r.chance(1, 10), dref: 0 });
            refs.push((*b"dimg", nid, vec![primary]));
            nid += 1;
        }
    }
    // item-offset construction
    if iloc_v > 0 && r.chance(1, 12) && os > 0 {
        let src = items.iter().find(|i| i.ty != *b"Exif" && i.data.len() > 4 && i.dref == 0).map(|i| (i.id, i.data.len()));
        if let Some((sid, sl)) = src {
            note.push("item-offset-construction");
            let a = r.below(sl);
            let l = r.below(sl - a + 1).max(1).min(sl - a);
            items.push(Gi { id: nid, ty: *b"tile", rest: vec![0], method: 2, extents: vec![(3, a, l)], prot: 0, hidden: true, data: vec![], v3: wide, dref: 0 });
            refs.push((*b"iloc", nid, vec![sid]));
        }
    }
    for i in 1..n.min(items.len()) {
        if r.chance(1, 2) && items[i].id != primary && &items[i].ty != b"Exif" {
            refs.push((**r.pick(&[b"dimg", b"thmb", b"auxl", b"cdsc"]), items[i].id, vec![primary]));
        }
    }
    for it in items.iter().filter(|i| &i.ty == b"Exif") {
        let t: Vec<u32> = if r.chance(1, 6) && items.len() > 2 { items.iter().filter(|i| &i.ty != b"Exif").take(2).map(|i| i.id).collect() } else { vec![primary] };
        refs.push((*b"cdsc", it.id, t));
    }
    r.shuffle(&mut refs);
    // boxes of meta, with iloc filled in afterwards
    let mut hdlr = full(0, 0);
    hdlr.extend([0u8; 4]);
    hdlr.extend(b"pict");
    hdlr.extend([0u8; 12]);
    hdlr.extend(*r.pick(&[&b"x\0"[..], b"\0", b"a handler\0"]));
    if r.chance(1, 5) {
        // pre-defined and reserved fields that are not zero
        for (a, n) in [(4, 4), (12, 12)] {
            if r.chance(1, 2) {
                let d = r.bytes(n);
                hdlr[a..a + n].copy_from_slice(&d);
            } else {
                let k = a + r.below(n);
                hdlr[k] = 1;
            }
        }
        note.push("hdlr-reserved");
    }
    let wide_p = primary > 0xffff || (wide && r.chance(1, 2));
    let mut pitm = full(wide_p as u8, 0);
    pitm.extend(if wide_p { primary.to_be_bytes().to_vec() } else { (primary as u16).to_be_bytes().to_vec() });
    let iinf_v = r.chance(1, 6) as u8;
    let mut iinf = full(iinf_v, 0);
    iinf.extend(if iinf_v == 0 { (items.len() as u16).to_be_bytes().to_vec() } else { (items.len() as u32).to_be_bytes().to_vec() });
    for it in &items {
        let v3 = it.v3 || it.id > 0xffff;
        if !v3 && &it.ty != b"Exif" && it.id != primary && it.prot == 0 && r.chance(1, 12) {
            // the older versions of an entry declare no item type
            let v = r.below(2) as u8;
            note.push("infe-v0-v1");
            let mut d = full(v, 0);
            d.extend((it.id as u16).to_be_bytes());
            d.extend([0, 0]);
            d.extend(*r.pick(&[&b"Exif\0"[..], b"Exif thumbnail\0", b"\0", b"mime\0", b"part\0"]));
            d.extend(*r.pick(&[&b"image/x\0"[..], b"image/x\0deflate\0", b"Exif\0"]));
            if v == 1 && r.chance(1, 2) {
                d.extend(b"fdel");
                d.extend(b"Exif\0\0");
            }
            put(&mut iinf, b"infe", &d, false);
            continue;
        }
        let mut d = full(if v3 { 3 } else { 2 }, it.hidden as u32);
        d.extend(if v3 { it.id.to_be_bytes().to_vec() } else { (it.id as u16).to_be_bytes().to_vec() });
        d.extend(it.prot.to_be_bytes());
        d.extend(it.ty);
        d.extend(&it.rest);
        put(&mut iinf, b"infe", &d, false);
    }
    let wide_r = items.iter().any(|i| i.id > 0xffff);
    let mut iref = full(wide_r as u8, 0);
    for (t, f, to) in &refs {
        let mut d = vec![];
        let w = |d: &mut Vec<u8>, x: u32| if wide_r { d.extend(x.to_be_bytes()) } else { d.extend((x as u16).to_be_bytes()) };
        w(&mut d, *f);
        d.extend((to.len() as u16).to_be_bytes());
        for x in to {
            w(&mut d, *x);
        }
        put(&mut iref, t, &d, false);
    }
    let mut iprp = vec![];
    {
        let mut ipco = vec![];
        let mut ispe = full(0, 0);
        ispe.extend(r.bytes(8));
        put(&mut ipco, b"ispe", &ispe, false);
        let k = r.below(30);
        let d = r.bytes(k);
        put(&mut ipco, b"colr", &d, false);
        put(&mut iprp, b"ipco", &ipco, false);
        let mut ipma = full(0, 0);
        ipma.extend([0, 0, 0, 0]);
        put(&mut iprp, b"ipma", &ipma, false);
    }
    let mut iloc_order: Vec<usize> = (0..items.len()).filter(|i| &items[*i].ty != b"iden" || !items[*i].hidden).collect();
    if r.chance(1, 3) {
        r.shuffle(&mut iloc_order);
    }
    let base_share: Vec<usize> = items.iter().map(|_| r.below(4)).collect();
    let data_box_first = r.chance(1, 5);
    if data_box_first {
        note.push("mdat-before-meta");
    }
    let mut children: Vec<(&[u8; 4], Vec<u8>)> = vec![];
    children.push((b"hdlr", hdlr));
    children.push((b"pitm", pitm));
    children.push((b"iloc", vec![]));
    children.push((b"iinf", iinf));
    if !refs.is_empty() || r.chance(1, 3) {
        children.push((b"iref", iref));
    } else {
        note.push("no-iref");
    }
    children.push((b"iprp", iprp));
    if items.iter().any(|i| i.method == 1) {
        children.push((b"idat", areas[2].clone()));
    }
    if !dref.is_empty() {
        let mut d = full(0, 0);
        d.extend((dref.len() as u32).to_be_bytes());
        for own in &dref {
            let mut u = full(0, *own as u32);
            if !own {
                u.extend(b"other.bin\0");
            }
            put(&mut d, b"url ", &u, false);
        }
        let mut i = vec![];
        put(&mut i, b"dref", &d, false);
        children.push((b"dinf", i));
    }
    if r.chance(1, 5) {
        children.push((b"free", r.bytes(7)));
    }
    if r.chance(1, 6) {
        children.push((b"grpl", vec![]));
    }
    for _ in 0..if r.chance(1, 3) { r.range(1, 4) } else { 0 } {
        // boxes the rewritten metadata box must carry along
        let t = *r.pick(&EXTRA);
        if t == b"dinf" {
            continue;
        }
        let k = r.range(16, 40);
        let mut d = super::jpeg::tricky(r, k);
        d[..4].copy_from_slice(&[0; 4]);
        children.push((t, d));
        note.push("extra-boxes");
    }
    if r.chance(1, 2) {
        r.shuffle(&mut children[1..]);
    }
    let child_large: Vec<bool> = children.iter().map(|_| r.chance(1, 40)).collect();
    let meta_large = r.chance(1, 20);
    if meta_large || child_large.iter().any(|x| *x) {
        note.push("largesize-in-meta");
    }
    let ftyp = if av { b"avif\0\0\0\0avifmif1".to_vec() } else { [&r.pick(&[b"heic", b"heif"])[..], b"\0\0\0\0mif1heic"].concat() };
    let mut top: Vec<(&str, Vec<u8>, bool, [u8; 4])> = vec![("ftyp", ftyp, false, *b"ftyp")];
    let free = |r: &mut Rng, top: &mut Vec<(&str, Vec<u8>, bool, [u8; 4])>| {
        if r.chance(1, 5) {
            let ty = if r.chance(1, 2) { **r.pick(&EXTRA) } else { *r.pick(&[b"free", b"skip", b"abcd", b"uuid"]).clone() };
            let k = r.range(16, 40);
            let mut d = super::jpeg::tricky(r, k);
            d[..4].copy_from_slice(&[0; 4]);
            top.push(("other", d, r.chance(1, 6), ty));
        }
    };
    free(r, &mut top);
    let mut have = false;
    if data_box_first {
        top.push(("mdat0", areas[0].clone(), r.chance(1, 10), *b"mdat"));
        have = true;
        free(r, &mut top);
    }
    // an image sequence track next to the items
    let mut targets: Vec<(usize, usize)> = vec![];
    for it in items.iter().filter(|i| &i.ty != b"Exif" && i.method == 0) {
        for (a, o, l) in &it.extents {
            if *l >= 4 && *a < 2 {
                targets.push((*a, *o + r.below(*l - 3)));
            }
        }
    }
    let moov = if !targets.is_empty() && r.chance(1, 8) {
        note.push("moov");
        let k = r.range(1, 4);
        Some((r.chance(1, 4), (0..k).map(|_| *r.pick(&targets)).collect::<Vec<_>>(), r.chance(1, 2), r.chance(1, 6)))
    } else {
        None
    };
    let moov_first = moov.is_some() && r.chance(1, 2);
    if moov_first {
        top.push(("moov", vec![], false, *b"moov"));
    }
    top.push(("meta", vec![], meta_large, *b"meta"));
    free(r, &mut top);
    if moov.is_some() && !moov_first {
        top.push(("moov", vec![], false, *b"moov"));
    }
    let need0 = items.iter().any(|i| i.extents.iter().any(|e| e.0 == 0)) || r.chance(9, 10);
    if !have && need0 {
        let lg = r.chance(1, 10);
        if lg {
            note.push("largesize-mdat");
        }
        top.push(("mdat0", areas[0].clone(), lg, *b"mdat"));
        free(r, &mut top);
    } else if !have {
        note.push("no-mdat");
    }
    if two_mdat {
        note.push("two-mdat");
        top.push(("mdat1", areas[1].clone(), r.chance(1, 10), *b"mdat"));
        free(r, &mut top);
    }
    let open_end = top.last().unwrap().0.starts_with("mdat") && r.chance(1, 3);
    if open_end {
        note.push("last-box-size-0");
    }
    let build = |starts: &[u64; 2]| -> (Vec<u8>, [u64; 2]) {
        let mut iloc = full(iloc_v as u8, 0);
        iloc.push((os << 4 | ls) as u8);
        iloc.push((bs << 4 | is) as u8);
        fn put_n(v: &mut Vec<u8>, x: u64, k: usize) {
            v.extend(&x.to_be_bytes()[8 - k..])
        }
        put_n(&mut iloc, iloc_order.len() as u64, if iloc_v < 2 { 2 } else { 4 });
        for &i in &iloc_order {
            let it = &items[i];
            put_n(&mut iloc, it.id as u64, if iloc_v < 2 { 2 } else { 4 });
            if iloc_v > 0 {
                put_n(&mut iloc, it.method as u64, 2);
            }
            put_n(&mut iloc, it.dref as u64, 2);
            let abs: Vec<u64> = it.extents.iter().map(|(a, o, _)| *o as u64 + if *a < 2 { starts[*a] } else { 0 }).collect();
            let min = abs.iter().min().copied().unwrap_or(0);
            let base = if bs == 0 {
                0
            } else if os == 0 {
                min
            } else {
                match base_share[i] {
                    0 => 0,
                    1 => min,
                    2 => min / 2,
                    _ => min.min(starts[0]),
                }
            };
            put_n(&mut iloc, base, bs);
            put_n(&mut iloc, it.extents.len() as u64, 2);
            for (k, (_, _, l)) in it.extents.iter().enumerate() {
                put_n(&mut iloc, if it.method == 2 { 1 } else { 0 }, is);
                put_n(&mut iloc, abs[k] - base, os);
                put_n(&mut iloc, *l as u64, ls);
            }
        }
        let mut out = vec![];
        let mut st = [0u64; 2];
        for (bi, (n, d, large, ty)) in top.iter().enumerate() {
            let mut d = d.clone();
            if *n == "meta" {
                let mut m = full(0, 0);
                for (ci, (t, cd)) in children.iter().enumerate() {
                    let cd = if *t == b"iloc" { &iloc } else { cd };
                    put(&mut m, *t, cd, child_large[ci]);
                }
                d = m;
            }
            if let ("moov", Some((wide, chunks, two, large))) = (*n, &moov) {
                let mut tab = full(0, 0);
                tab.extend((chunks.len() as u32).to_be_bytes());
                for (a, o) in chunks {
                    let x = starts[*a] + *o as u64;
                    put_n(&mut tab, x, if *wide { 8 } else { 4 });
                }
                let mut stbl = vec![];
                put(&mut stbl, b"stsd", &[0; 8], false);
                put(&mut stbl, b"stts", &[0; 8], false);
                put(&mut stbl, if *wide { b"co64" } else { b"stco" }, &tab, *large);
                let wrap = |t: &[u8; 4], pre: &[u8; 4], c: &[u8]| {
                    let mut v = vec![];
                    put(&mut v, pre, &[0u8; 20], false);
                    put(&mut v, t, c, false);
                    v
                };
                let minf = wrap(b"stbl", b"vmhd", &stbl);
                let mdia = wrap(b"minf", b"mdhd", &minf);
                let trak = wrap(b"mdia", b"tkhd", &mdia);
                let mut m = wrap(b"trak", b"mvhd", &trak);
                if *two {
                    put(&mut m, b"trak", &trak, false);
                }
                d = m;
            }
            let last = bi + 1 == top.len();
            if last && open_end {
                out.extend(0u32.to_be_bytes());
                out.extend(ty);
            } else if *large {
                out.extend(1u32.to_be_bytes());
                out.extend(ty);
                out.extend((d.len() as u64 + 16).to_be_bytes());
            } else {
                out.extend((d.len() as u32 + 8).to_be_bytes());
                out.extend(ty);
            }
            match *n {
                "mdat0" => st[0] = out.len() as u64,
                "mdat1" => st[1] = out.len() as u64,
                _ => (),
            }
            out.extend(d);
        }
        (out, st)
    };
    let (_, st) = build(&[1 << 20, 1 << 20]);
    let (bytes, st2) = build(&st);
    assert_eq!(st, st2);
    Img { kind: Kind::Heif, bytes, note }
}
