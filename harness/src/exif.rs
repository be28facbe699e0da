//! Independent TIFF/EXIF reference: structural parser/validator, reference
//! decoder, and a writer that produces foreign layouts.
use crate::rng::Rng;
use crate::tagtable::TAGS;
use std::collections::BTreeMap;

pub const G_IFD: u8 = 0;
pub const G_EXIF: u8 = 1;
pub const G_INTEROP: u8 = 2;
pub const G_GPS: u8 = 3;

pub fn fmt_size(f: u16) -> Option<usize> {
    Some(match f {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        4 | 9 | 11 => 4,
        5 | 10 | 12 => 8,
        _ => return None,
    })
}
/// size of the unit whose bytes are swapped between byte orders
pub fn swap_unit(f: u16) -> usize {
    match f {
        3 | 8 => 2,
        4 | 9 | 11 | 5 | 10 => 4,
        12 => 8,
        _ => 1,
    }
}
pub fn swapped(f: u16, d: &[u8]) -> Vec<u8> {
    let u = swap_unit(f);
    let mut v = d.to_vec();
    for c in v.chunks_mut(u) {
        c.reverse();
    }
    v
}
pub fn known(group: u8, tag: u16) -> Option<(&'static str, u16, u32, bool)> {
    // strip/thumbnail tags are modelled separately
    match tag {
        0x0111 | 0x0117 | 0x0201 | 0x0202 => return Some(("data", 4, 0, true)),
        _ => (),
    }
    use std::sync::OnceLock;
    static M: OnceLock<BTreeMap<(u8, u16), (&'static str, u16, u32, bool)>> = OnceLock::new();
    let m = M.get_or_init(|| TAGS.iter().map(|t| ((t.5, t.1), (t.0, t.2, t.3, t.4))).collect());
    m.get(&(group, tag)).copied()
}
pub fn is_offset_tag(group: u8, tag: u16) -> Option<u8> {
    match (group, tag) {
        (G_IFD, 0x8769) => Some(G_EXIF),
        (G_IFD, 0x8825) => Some(G_GPS),
        (G_EXIF, 0xa005) => Some(G_INTEROP),
        _ => None,
    }
}

// ------------------------------------------------------------------ parser
#[derive(Clone, Debug)]
pub struct REntry {
    pub tag: u16,
    pub fmt: u16,
    pub count: u32,
    /// raw value bytes in file byte order
    pub raw: Vec<u8>,
    /// out-of-line location
    pub at: Option<(usize, usize)>,
}
#[derive(Clone, Debug)]
pub struct RIfd {
    pub off: usize,
    pub group: u8,
    pub nr: u32,
    pub entries: Vec<REntry>,
    pub next: u32,
}
#[derive(Clone, Debug)]
pub struct RTiff {
    pub be: bool,
    pub ifds: Vec<RIfd>,
    pub len: usize,
}
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub be: bool,
}
impl<'a> Rd<'a> {
    pub fn u16(&self, o: usize) -> Result<u16, String> {
        let s = self.b.get(o..o + 2).ok_or(format!("u16 at {} out of range", o))?;
        Ok(if self.be { u16::from_be_bytes([s[0], s[1]]) } else { u16::from_le_bytes([s[0], s[1]]) })
    }
    pub fn u32(&self, o: usize) -> Result<u32, String> {
        let s = self.b.get(o..o + 4).ok_or(format!("u32 at {} out of range", o))?;
        let a = [s[0], s[1], s[2], s[3]];
        Ok(if self.be { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) })
    }
}
pub fn num(be: bool, fmt: u16, raw: &[u8], i: usize) -> Option<u32> {
    let r = Rd { b: raw, be };
    match fmt {
        1 => raw.get(i).map(|x| *x as u32),
        3 => r.u16(i * 2).ok().map(|x| x as u32),
        4 => r.u32(i * 4).ok(),
        _ => None,
    }
}

/// Parse a TIFF block. Structural errors are returned as Err.
pub fn parse(b: &[u8]) -> Result<RTiff, String> {
    if b.len() < 8 {
        return Err("shorter than a TIFF header".into());
    }
    let be = match &b[0..4] {
        [0x49, 0x49, 0x2a, 0x00] => false,
        [0x4d, 0x4d, 0x00, 0x2a] => true,
        x => return Err(format!("bad TIFF header {:02x?}", x)),
    };
    let r = Rd { b, be };
    let mut t = RTiff { be, ifds: vec![], len: b.len() };
    let mut off = r.u32(4)? as usize;
    let mut nr = 0;
    let mut seen = std::collections::HashSet::new();
    while off != 0 {
        if !seen.insert(off) {
            return Err("cycle in the directory chain".into());
        }
        let next = parse_ifd(&r, off, G_IFD, nr, &mut t, &mut seen)?;
        off = next as usize;
        nr += 1;
    }
    Ok(t)
}
fn parse_ifd(r: &Rd, off: usize, group: u8, nr: u32, t: &mut RTiff, seen: &mut std::collections::HashSet<usize>) -> Result<u32, String> {
    let n = r.u16(off)? as usize;
    let mut entries = vec![];
    let mut subs = vec![];
    for i in 0..n {
        let e = off + 2 + 12 * i;
        let tag = r.u16(e)?;
        let fmt = r.u16(e + 2)?;
        let count = r.u32(e + 4)?;
        r.u32(e + 8)?;
        let sz = fmt_size(fmt).ok_or(format!("ifd {}/{} tag {:04x}: illegal format {}", nr, group, tag, fmt))?;
        let len = sz as u64 * count as u64;
        let (raw, at) = if len <= 4 {
            (r.b[e + 8..e + 8 + len as usize].to_vec(), None)
        } else {
            let o = r.u32(e + 8)? as usize;
            let s = r.b.get(o..o.saturating_add(len as usize)).ok_or(format!("ifd {}/{} tag {:04x}: value {}+{} outside block of {}", nr, group, tag, o, len, r.b.len()))?;
            (s.to_vec(), Some((o, len as usize)))
        };
        if let Some(g) = is_offset_tag(group, tag) {
            let o = num(r.be, fmt, &raw, 0).ok_or(format!("offset tag {:04x} with format {} count {}", tag, fmt, count))?;
            subs.push((g, o as usize));
        }
        entries.push(REntry { tag, fmt, count, raw, at });
    }
    let next = r.u32(off + 2 + 12 * n).map_err(|e| format!("next link: {}", e));
    let next = if group == G_IFD { next? } else { next.unwrap_or(0) };
    t.ifds.push(RIfd { off, group, nr, entries, next });
    for (g, o) in subs {
        if !seen.insert(o) {
            return Err(format!("directory at {} reached twice", o));
        }
        parse_ifd(r, o, g, nr, t, seen)?;
    }
    Ok(next)
}

// ------------------------------------------------------------------ model
/// Value of a tag: format code and bytes (little endian; text without terminator).
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Val {
    pub fmt: u16,
    pub data: Vec<u8>,
}
pub type Key = (u32, u8, u16);
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Model {
    pub be: bool,
    pub tags: BTreeMap<Key, Vec<Val>>,
}
impl Model {
    pub fn set(&mut self, k: Key, v: Val) {
        self.tags.insert(k, vec![v]);
    }
    pub fn push(&mut self, k: Key, v: Val) {
        self.tags.entry(k).or_default().push(v);
    }
    pub fn diff(&self, other: &Model, an: &str, bn: &str) -> Option<String> {
        if self.be != other.be {
            return Some(format!("byte order differs: {} big-endian={}, {} big-endian={}", an, self.be, bn, other.be));
        }
        for (k, v) in &self.tags {
            match other.tags.get(k) {
                None => return Some(format!("tag {} is in {} but missing in {}", show_key(k), an, bn)),
                Some(w) if w != v => return Some(format!("tag {}: {} has {} but {} has {}", show_key(k), an, show_vals(v), bn, show_vals(w))),
                _ => (),
            }
        }
        for k in other.tags.keys() {
            if !self.tags.contains_key(k) {
                return Some(format!("tag {} is in {} ({}) but not in {}", show_key(k), bn, show_vals(&other.tags[k]), an));
            }
        }
        None
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{} tags={} [", if self.be { "MM" } else { "II" }, self.tags.len());
        for (k, v) in self.tags.iter().take(8) {
            s.push_str(&format!("{}:f{}x{} ", show_key(k), v[0].fmt, v[0].data.len()));
        }
        s.push(']');
        s
    }
}
pub fn show_key(k: &Key) -> String {
    format!("{:04x}@{}{}", k.2, ["IFD", "Exif", "Interop", "GPS"][k.1 as usize], k.0)
}
pub fn show_vals(v: &[Val]) -> String {
    v.iter()
        .map(|x| {
            let n = x.data.len().min(24);
            format!("fmt {} len {} {:02x?}{}", x.fmt, x.data.len(), &x.data[..n], if n < x.data.len() { ".." } else { "" })
        })
        .collect::<Vec<_>>()
        .join(" | ")
}
/// the text a recorded byte string denotes: terminator(s) dropped; UTF-8, else Latin-1
pub fn text_of(raw: &[u8]) -> Vec<u8> {
    match std::str::from_utf8(raw) {
        Ok(s) => s.trim_end_matches('\0').as_bytes().to_vec(),
        Err(_) => raw[..raw.iter().rposition(|b| *b > 0).map_or(0, |p| p + 1)].iter().map(|b| *b as char).collect::<String>().into_bytes(),
    }
}
pub fn pack_strips(strips: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![];
    for s in strips {
        v.extend((s.len() as u32).to_le_bytes());
        v.extend(s);
    }
    v
}

/// Reference decoding of a parsed block (the meaning of its bytes).
/// Err: contains something the specification gives no value for.
pub fn ref_model(b: &[u8], t: &RTiff) -> Result<Model, String> {
    let mut m = Model { be: t.be, tags: BTreeMap::new() };
    for ifd in &t.ifds {
        let mut strips: (Option<&REntry>, Option<&REntry>) = (None, None);
        let mut thumb: (Option<&REntry>, Option<&REntry>) = (None, None);
        for e in &ifd.entries {
            if is_offset_tag(ifd.group, e.tag).is_some() {
                continue;
            }
            match e.tag {
                0x0111 => {
                    strips.0 = Some(e);
                    continue;
                }
                0x0117 => {
                    strips.1 = Some(e);
                    continue;
                }
                0x0201 => {
                    thumb.0 = Some(e);
                    continue;
                }
                0x0202 => {
                    thumb.1 = Some(e);
                    continue;
                }
                _ => (),
            }
            let v = ref_value(t.be, ifd.group, e)?;
            m.push((ifd.nr, ifd.group, e.tag), v);
        }
        if let (Some(o), Some(c)) = strips {
            let n = o.count.min(c.count) as usize;
            let mut data = vec![];
            let mut lens = vec![];
            for i in 0..n {
                let off = num(t.be, o.fmt, &o.raw, i).ok_or("strip offset format")? as usize;
                let len = num(t.be, c.fmt, &c.raw, i).ok_or("strip count format")? as usize;
                data.push(b.get(off..off.saturating_add(len)).ok_or(format!("strip {}+{} out of range", off, len))?.to_vec());
            }
            for i in 0..c.count as usize {
                lens.extend(num(t.be, c.fmt, &c.raw, i).ok_or("strip count format")?.to_le_bytes());
            }
            m.push((ifd.nr, ifd.group, 0x0111), Val { fmt: 4, data: pack_strips(&data) });
            m.push((ifd.nr, ifd.group, 0x0117), Val { fmt: 4, data: lens });
        }
        if let (Some(o), Some(l)) = thumb {
            if o.count == 1 && l.count == 1 {
                let off = num(t.be, o.fmt, &o.raw, 0).ok_or("thumbnail offset format")? as usize;
                let len = num(t.be, l.fmt, &l.raw, 0).ok_or("thumbnail length format")? as usize;
                let d = b.get(off..off.saturating_add(len)).ok_or(format!("thumbnail {}+{} out of range", off, len))?.to_vec();
                m.push((ifd.nr, ifd.group, 0x0201), Val { fmt: 4, data: d });
                m.push((ifd.nr, ifd.group, 0x0202), Val { fmt: 4, data: (len as u32).to_le_bytes().to_vec() });
            }
        }
    }
    Ok(m)
}
/// all numeric components as i128/f64-free integers for the integer formats
fn ref_value(be: bool, group: u8, e: &REntry) -> Result<Val, String> {
    let le = if be { swapped(e.fmt, &e.raw) } else { e.raw.clone() };
    let want = match known(group, e.tag) {
        None => e.fmt,
        Some(k) => k.1,
    };
    if want == e.fmt {
        return Ok(match e.fmt {
            2 => Val { fmt: 2, data: text_of(&e.raw) },
            f => Val { fmt: f, data: le },
        });
    }
    let ints = |f: u16| -> Vec<u64> {
        match f {
            1 => le.iter().map(|x| *x as u64).collect(),
            3 => le.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]]) as u64).collect(),
            4 => le.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64).collect(),
            _ => vec![],
        }
    };
    match (want, e.fmt) {
        (4, 3) | (4, 1) => Ok(Val { fmt: 4, data: ints(e.fmt).iter().flat_map(|x| (*x as u32).to_le_bytes()).collect() }),
        (3, 4) | (3, 1) => {
            let v = ints(e.fmt);
            if v.iter().any(|x| *x > 0xffff) {
                return Err("value does not fit 16 bits".into());
            }
            Ok(Val { fmt: 3, data: v.iter().flat_map(|x| (*x as u16).to_le_bytes()).collect() })
        }
        (1, 3) => {
            let v = ints(3);
            if v.iter().any(|x| *x > 0xff) {
                return Err("value does not fit 8 bits".into());
            }
            Ok(Val { fmt: 1, data: v.iter().map(|x| *x as u8).collect() })
        }
        (1, 2) if group == G_GPS && e.tag == 5 => match e.raw.first() {
            Some(0) | Some(b'0') => Ok(Val { fmt: 1, data: vec![0] }),
            Some(1) | Some(b'1') => Ok(Val { fmt: 1, data: vec![1] }),
            _ => Err("GPSAltitudeRef text".into()),
        },
        (10, 5) => Ok(Val { fmt: 10, data: le }), // compared numerically by the caller
        (7, 2) if group == G_GPS && e.tag == 0x1b => Ok(Val { fmt: 7, data: e.raw.clone() }),
        (w, g) => Err(format!("tag {:04x}: format {} recorded, {} defined", e.tag, g, w)),
    }
}

// ------------------------------------------------------------------ strict validator (C07)
/// Returns violations of the TIFF structure rules for an encoder's output.
pub fn validate(b: &[u8]) -> Result<RTiff, String> {
    let t = parse(b)?;
    let mut ranges: Vec<(usize, usize, String)> = vec![(0, 8, "header".into())];
    for ifd in &t.ifds {
        let name = format!("{}{}", ["IFD", "Exif", "Interop", "GPS"][ifd.group as usize], ifd.nr);
        if ifd.off % 2 != 0 {
            return Err(format!("{} at odd offset {}", name, ifd.off));
        }
        ranges.push((ifd.off, ifd.off + 6 + 12 * ifd.entries.len(), format!("directory {}", name)));
        if ifd.off + 6 + 12 * ifd.entries.len() > b.len() {
            return Err(format!("{} runs past the end of the block", name));
        }
        if ifd.group != G_IFD && ifd.next != 0 {
            return Err(format!("{} is a sub-directory but has a next link {}", name, ifd.next));
        }
        let mut last: Option<u16> = None;
        for e in &ifd.entries {
            if let Some(l) = last {
                if e.tag == l {
                    return Err(format!("{}: tag {:04x} appears twice", name, e.tag));
                }
                if e.tag < l {
                    return Err(format!("{}: tag {:04x} after {:04x}: entries not in ascending order", name, e.tag, l));
                }
            }
            last = Some(e.tag);
            if let Some((o, l)) = e.at {
                if o % 2 != 0 {
                    return Err(format!("{}: value of {:04x} at odd offset {}", name, e.tag, o));
                }
                ranges.push((o, o + l, format!("{} value {:04x}", name, e.tag)));
            }
            if e.fmt == 2 && e.raw.last() != Some(&0) {
                return Err(format!("{}: text of {:04x} is not NUL-terminated", name, e.tag));
            }
            if is_offset_tag(ifd.group, e.tag).is_some() && (e.fmt != 4 || e.count != 1) {
                return Err(format!("{}: sub-directory offset {:04x} has format {} count {}", name, e.tag, e.fmt, e.count));
            }
        }
        let find = |tag: u16| ifd.entries.iter().find(|e| e.tag == tag);
        for (ot, lt, what) in [(0x0111u16, 0x0117u16, "strip"), (0x0201, 0x0202, "thumbnail")] {
            if let (Some(o), Some(l)) = (find(ot), find(lt)) {
                if o.count != l.count {
                    return Err(format!("{}: {} offsets {} but {} lengths", name, what, o.count, l.count));
                }
                for i in 0..o.count as usize {
                    let a = num(t.be, o.fmt, &o.raw, i).ok_or(format!("{}: {} offset format {}", name, what, o.fmt))? as usize;
                    let n = num(t.be, l.fmt, &l.raw, i).ok_or(format!("{}: {} length format {}", name, what, l.fmt))? as usize;
                    if a + n > b.len() {
                        return Err(format!("{}: {} {} at {}+{} outside the block of {}", name, what, i, a, n, b.len()));
                    }
                    ranges.push((a, a + n, format!("{} {} {}", name, what, i)));
                }
            }
        }
    }
    ranges.retain(|r| r.1 > r.0);
    ranges.sort();
    for w in ranges.windows(2) {
        if w[1].0 < w[0].1 {
            return Err(format!("{} [{}..{}) overlaps {} [{}..{})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
        }
    }
    Ok(t)
}

// ------------------------------------------------------------------ foreign writer
#[derive(Clone, Debug)]
pub enum WVal {
    /// little-endian component bytes
    Plain(u16, Vec<u8>),
    Strips { off_fmt: u16, len_fmt: u16, data: Vec<Vec<u8>> },
    Thumb(Vec<u8>, u16),
}
#[derive(Clone, Debug, Default)]
pub struct WDir {
    pub entries: Vec<(u16, WVal)>,
    pub exif: Option<Box<WDir>>,
    pub gps: Option<Box<WDir>>,
    pub interop: Option<Box<WDir>>,
}
#[derive(Clone, Debug, Default)]
pub struct WTiff {
    pub be: bool,
    pub pages: Vec<WDir>,
}
pub struct Layout {
    pub shuffle_blocks: bool,
    pub gaps: bool,
    pub unsorted: bool,
    pub odd: bool,
    /// do not write the 4 link bytes of sub-directories at the very end
    pub garbage_sub_link: bool,
    /// first directory right after the header
    pub first_at_8: bool,
    /// equal values (or values that are the begin of another one) are stored once
    pub shared: bool,
}
impl Layout {
    pub fn plain() -> Layout {
        Layout { shuffle_blocks: false, gaps: false, unsorted: false, odd: false, garbage_sub_link: false, first_at_8: true, shared: false }
    }
    pub fn random(r: &mut Rng) -> Layout {
        Layout {
            shuffle_blocks: r.chance(2, 3),
            gaps: r.chance(1, 2),
            unsorted: r.chance(1, 4),
            odd: r.chance(1, 8),
            garbage_sub_link: r.chance(1, 6),
            first_at_8: r.chance(1, 2),
            shared: r.chance(1, 4),
        }
    }
}
struct Blk {
    data: Vec<u8>,
    /// (position in data, target block)
    fix: Vec<(usize, usize, u16)>,
    off: usize,
    /// the value of an entry
    value: bool,
}
fn ord(be: bool, fmt: u16, le: &[u8]) -> Vec<u8> {
    if be {
        swapped(fmt, le)
    } else {
        le.to_vec()
    }
}
pub fn write_foreign(t: &WTiff, l: &Layout, r: &mut Rng) -> Vec<u8> {
    let be = t.be;
    let mut blks: Vec<Blk> = vec![];
    let mut prev: Option<(usize, usize)> = None;
    let mut first = None;
    for p in &t.pages {
        let (b, link) = add_dir(t, p, G_IFD, l, r, &mut blks);
        if let Some((pb, pl)) = prev {
            blks[pb].fix.push((pl, b, 4));
        } else {
            first = Some(b);
        }
        prev = Some((b, link));
    }
    let n = blks.len();
    let mut order: Vec<usize> = (0..n).collect();
    // natural order: directories in creation order
    if l.shuffle_blocks {
        r.shuffle(&mut order);
    }
    if l.first_at_8 {
        if let Some(f) = first {
            order.retain(|x| *x != f);
            order.insert(0, f);
        }
    }
    let mut out = vec![];
    out.extend(if be { [0x4d, 0x4d, 0, 0x2a] } else { [0x49, 0x49, 0x2a, 0] });
    out.extend([0u8; 4]);
    // where a value is stored instead: one with the same begin
    let mut alias: Vec<Option<usize>> = vec![None; n];
    if l.shared && n <= 400 {
        let plain: Vec<usize> = (0..n).filter(|i| blks[*i].value && blks[*i].fix.is_empty()).collect();
        for i in &plain {
            let same = |j: &usize| *j != *i && alias[*j].is_none() && (blks[*j].data.len() > blks[*i].data.len() || blks[*j].data.len() == blks[*i].data.len() && j < i) && blks[*j].data.starts_with(&blks[*i].data);
            if let Some(j) = plain.iter().copied().find(|j| same(j)) {
                // (targets are final: a target never gets an alias afterwards)
                if !alias.iter().any(|a| *a == Some(*i)) {
                    alias[*i] = Some(j);
                }
            }
        }
    }
    for i in &order {
        if alias[*i].is_some() {
            continue;
        }
        if l.gaps && r.chance(1, 3) {
            let k = r.range(1, 9) * 2;
            out.extend(r.bytes(k));
        }
        if out.len() % 2 != 0 && !l.odd {
            out.push(0);
        }
        blks[*i].off = out.len();
        let d = blks[*i].data.clone();
        out.extend(d);
    }
    for i in 0..n {
        if let Some(j) = alias[i] {
            blks[i].off = blks[j].off;
        }
    }
    for b in 0..n {
        for (pos, target, fmt) in blks[b].fix.clone() {
            let o = blks[b].off + pos;
            let v = blks[target].off as u32;
            if fmt == 3 {
                assert!(v < 65536);
                out[o..o + 2].copy_from_slice(&ord(be, 3, &(v as u16).to_le_bytes()));
            } else {
                out[o..o + 4].copy_from_slice(&ord(be, 4, &v.to_le_bytes()));
            }
        }
    }
    if let Some(f) = first {
        let v = blks[f].off as u32;
        out[4..8].copy_from_slice(&ord(be, 4, &v.to_le_bytes()));
    }
    out
}
fn add_dir(t: &WTiff, d: &WDir, group: u8, l: &Layout, r: &mut Rng, blks: &mut Vec<Blk>) -> (usize, usize) {
    let be = t.be;
    let me = blks.len();
    blks.push(Blk { data: vec![], fix: vec![], off: 0, value: false });
    // (tag, fmt, count, le bytes or None, targets)
    struct E {
        tag: u16,
        fmt: u16,
        count: u32,
        le: Vec<u8>,
        targets: Vec<usize>,
    }
    let mut es: Vec<E> = vec![];
    for (tag, v) in &d.entries {
        match v {
            WVal::Plain(f, le) => {
                let sz = fmt_size(*f).unwrap();
                es.push(E { tag: *tag, fmt: *f, count: (le.len() / sz) as u32, le: le.clone(), targets: vec![] });
            }
            WVal::Strips { off_fmt, len_fmt, data } => {
                let mut tg = vec![];
                let mut lens = vec![];
                for s in data {
                    tg.push(blks.len());
                    blks.push(Blk { data: s.clone(), fix: vec![], off: 0, value: false });
                    if *len_fmt == 3 {
                        lens.extend((s.len() as u16).to_le_bytes());
                    } else {
                        lens.extend((s.len() as u32).to_le_bytes());
                    }
                }
                let w = fmt_size(*off_fmt).unwrap();
                es.push(E { tag: 0x0111, fmt: *off_fmt, count: data.len() as u32, le: vec![0; w * data.len()], targets: tg });
                es.push(E { tag: 0x0117, fmt: *len_fmt, count: data.len() as u32, le: lens, targets: vec![] });
            }
            WVal::Thumb(data, len_fmt) => {
                let b = blks.len();
                blks.push(Blk { data: data.clone(), fix: vec![], off: 0, value: false });
                es.push(E { tag: 0x0201, fmt: 4, count: 1, le: vec![0; 4], targets: vec![b] });
                let le = if *len_fmt == 3 { (data.len() as u16).to_le_bytes().to_vec() } else { (data.len() as u32).to_le_bytes().to_vec() };
                es.push(E { tag: 0x0202, fmt: *len_fmt, count: 1, le, targets: vec![] });
            }
        }
    }
    for (sub, tag, g) in [(&d.exif, 0x8769u16, G_EXIF), (&d.gps, 0x8825, G_GPS), (&d.interop, 0xa005, G_INTEROP)] {
        if let Some(s) = sub {
            let (b, _) = add_dir(t, s, g, l, r, blks);
            es.push(E { tag, fmt: 4, count: 1, le: vec![0; 4], targets: vec![b] });
        }
    }
    if l.unsorted {
        r.shuffle(&mut es);
    } else {
        es.sort_by_key(|e| e.tag);
    }
    let mut data = vec![];
    let mut fix = vec![];
    data.extend(ord(be, 3, &(es.len() as u16).to_le_bytes()));
    for e in &es {
        data.extend(ord(be, 3, &e.tag.to_le_bytes()));
        data.extend(ord(be, 3, &e.fmt.to_le_bytes()));
        data.extend(ord(be, 4, &e.count.to_le_bytes()));
        let raw = ord(be, e.fmt, &e.le);
        let w = fmt_size(e.fmt).unwrap();
        if raw.len() <= 4 {
            for (i, tg) in e.targets.iter().enumerate() {
                fix.push((data.len() + i * w, *tg, e.fmt));
            }
            let mut f = [0u8; 4];
            f[..raw.len()].copy_from_slice(&raw);
            data.extend(f);
        } else {
            let b = blks.len();
            let vf = e.targets.iter().enumerate().map(|(i, tg)| (i * w, *tg, e.fmt)).collect();
            blks.push(Blk { data: raw, fix: vf, off: 0, value: true });
            fix.push((data.len(), b, 4));
            data.extend([0u8; 4]);
        }
    }
    let link = data.len();
    if group != G_IFD && l.garbage_sub_link {
        data.extend(r.bytes(4));
    } else {
        data.extend([0u8; 4]);
    }
    blks[me].data = data;
    blks[me].fix = fix;
    (me, link)
}
