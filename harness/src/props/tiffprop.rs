//! C14: pages, strips and thumbnails survive metadata editing.
use crate::cont::{self, Img, Kind};
use crate::exif::*;
use crate::gen::*;
use crate::props::block::classify;
use crate::props::image::*;
use crate::rng::*;
use crate::run::*;
use little_exif::exif_tag::ExifTag;
use little_exif::ifd::ExifTagGroup;
use little_exif::metadata::Metadata;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "a case takes a generated TIFF (1 to 6 pages, rarely hundreds, 1 to 40 strips each, any layout and byte order, tags that tell how to decode the samples) or an image of another format whose EXIF holds a thumbnail, performs 1 to 4 rounds of read-edit-write or clear through either API, and after every round resolves all strips and thumbnails and all tags of all pages with an independent TIFF walk and compares them with the original plus edits; one case in twelve is a TIFF with tiles or SubIFD images, which must be carried over or refused; one in 24 writes metadata from which a field needed for the pixels was taken, which must be refused unchanged; non-trivial: at least two strips, pages or rounds; distinct by input and result",
        assumptions: &["strip lengths and offsets within 32 bits", "tags recorded in their defined format"],
        quick: 120_000,
        thorough: 4_800_000,
        run: c14,
        min_nontrivial: 5_000,
    }]
}
const STRUCT: [u16; 16] = [0x0100, 0x0101, 0x0102, 0x0103, 0x0106, 0x0111, 0x0115, 0x0116, 0x0117, 0x011a, 0x011b, 0x0128, 0x0140, 0x0201, 0x0202, 0x0000];
/// tags a decoder needs beyond the structural ones
pub const DECODE: [(u16, u16, &[u8]); 14] = [
    (0x00fe, 4, &[0, 0, 0, 0]),
    (0x010a, 3, &[2, 0]),
    (0x011c, 3, &[2, 0]),
    (0x0124, 4, &[1, 0, 0, 0]),
    (0x0125, 4, &[0, 0, 0, 0]),
    (0x013d, 3, &[2, 0]),
    (0x0152, 3, &[2, 0]),
    (0x0153, 3, &[3, 0, 3, 0, 3, 0]),
    (0x015b, 7, &[0xff, 0xd8, 0xff, 0xd9]),
    (0x0211, 5, &[1, 0, 0, 0, 3, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0]),
    (0x0212, 3, &[2, 0, 1, 0]),
    (0x0213, 3, &[2, 0]),
    (0x0214, 5, &[0, 0, 0, 0, 1, 0, 0, 0, 255, 0, 0, 0, 1, 0, 0, 0, 128, 0, 0, 0, 1, 0, 0, 0, 255, 0, 0, 0, 1, 0, 0, 0, 128, 0, 0, 0, 1, 0, 0, 0, 255, 0, 0, 0, 1, 0, 0, 0]),
    (0x8773, 7, &[0, 0, 2, 0x0c, 1, 2, 3]),
];
fn must_survive_clear(t: u16) -> bool {
    t != 0 && STRUCT.contains(&t) || DECODE.iter().any(|d| d.0 == t)
}
fn gen_tiff(r: &mut Rng, note: &mut Vec<&'static str>) -> Vec<u8> {
    let crowd = r.chance(1, 1500);
    let pages = if crowd {
        r.range(7, 600)
    } else if r.chance(1, 2) {
        r.range(2, 6)
    } else {
        1
    };
    if pages > 1 {
        note.push("multi-page");
    }
    if crowd {
        note.push("many-pages");
    }
    let fo = ForeignOpts { exceptions: false, max_tags: if crowd { 1 } else { 5 }, pages, strips: true, text_terminated: true };
    let mut t = gen_foreign(r, &fo);
    for d in t.pages.iter_mut() {
        make_tiff_page(r, d);
        for x in DECODE {
            if r.chance(1, 6) {
                d.entries.retain(|e| e.0 != x.0);
                d.entries.push((x.0, WVal::Plain(x.1, x.2.to_vec())));
                note.push("decode-tags");
            }
        }
        // many or large or equal strips
        if r.chance(1, 5) {
            let n = r.range(2, 40);
            let same = r.chance(1, 4);
            let one = r.bytes(7);
            let data = (0..n)
                .map(|_| if same { one.clone() } else { let k = r.range(1, 30); r.bytes(k) })
                .collect();
            d.entries.retain(|e| e.0 != 0x0111);
            d.entries.push((0x0111, WVal::Strips { off_fmt: 4, len_fmt: if r.chance(1, 2) { 3 } else { 4 }, data }));
            note.push("many-strips");
        } else if !crowd && r.chance(1, 40) {
            let n = r.range(60_000, 80_000);
            d.entries.retain(|e| e.0 != 0x0111);
            d.entries.push((0x0111, WVal::Strips { off_fmt: 4, len_fmt: 4, data: vec![r.bytes(n), r.bytes(3)] }));
            note.push("large-strip");
        }
        if d.entries.iter().any(|e| matches!(e.1, WVal::Thumb(..))) {
            note.push("thumbnail");
        }
    }
    if t.be {
        note.push("big-endian");
    }
    if crowd || note.contains(&"large-strip") || note.contains(&"many-strips") {
        // beyond what 16-bit offsets can reach
        for e in t.pages.iter_mut().flat_map(|d| d.entries.iter_mut()) {
            match &mut e.1 {
                WVal::Strips { off_fmt, .. } => *off_fmt = 4,
                WVal::Thumb(_, f) => *f = 4,
                _ => (),
            }
        }
    }
    write_foreign(&t, &Layout::random(r), r)
}
fn structural(g: u8, t: u16) -> bool {
    g == G_IFD && (STRUCT.contains(&t) || matches!(t, 0x0144 | 0x0145 | 0x014a)) || is_offset_tag(g, t).is_some()
}
/// the same edit on the object and on the model
pub fn edit(c: &mut Ctx, r: &mut Rng, m: &mut Metadata, w: &mut Model, pages: u32, log: &mut Vec<String>) -> bool {
    let nr = r.below(pages as usize) as u32;
    let op = r.below(8);
    if op == 7 {
        // replace or add a thumbnail
        let n = r.range(1, 300);
        let d = r.bytes(n);
        log.push(format!("thumbnail of {} bytes in page {}", n, nr));
        w.set((nr, G_IFD, 0x0202), Val { fmt: 4, data: (n as u32).to_le_bytes().to_vec() });
        w.set((nr, G_IFD, 0x0201), Val { fmt: 4, data: d.clone() });
        return matches!(
            c.call("edit", 1 << 20, || {
                let i = m.get_ifd_mut(ExifTagGroup::GENERIC, nr);
                i.set_tag(ExifTag::ThumbnailOffset(vec![], d));
                i.set_tag(ExifTag::ThumbnailLength(vec![n as u32]));
            }),
            Out::Ok(_)
        );
    }
    let (g, t, v) = rand_tag(r, true, false);
    if op < 5 {
        if structural(g, t) || v.data.len() > 5000 {
            return true;
        }
        let tag = make_tag(g, t, &v);
        let here = if op < 2 { 0 } else { nr };
        log.push(format!("set {:04x}@{} group {}", t, here, g));
        w.set((here, g, t), v);
        return matches!(
            c.call("edit", 1 << 20, || if op < 2 {
                m.set_tag(tag)
            } else {
                m.get_ifd_mut(grp(g), here).set_tag(tag)
            }),
            Out::Ok(_)
        );
    }
    let k = match w.tags.keys().nth(r.below(w.tags.len().max(1))) {
        Some(k) if !structural(k.1, k.2) => *k,
        _ => return true,
    };
    if op == 5 {
        log.push(format!("remove {:04x} group {}", k.2, k.1));
        w.tags.retain(|x, _| !(x.1 == k.1 && x.2 == k.2));
        matches!(c.call("edit", 1 << 20, || { m.remove_tag_by_hex_group(k.2, grp(k.1)); }), Out::Ok(_))
    } else {
        log.push(format!("remove {:04x}@{} group {}", k.2, k.0, k.1));
        w.tags.remove(&k);
        matches!(c.call("edit", 1 << 20, || { m.get_ifd_mut(grp(k.1), k.0).remove_tag(k.2); }), Out::Ok(_))
    }
}
/// strips and thumbnail of every page, through the offsets recorded in the bytes
fn data_of(b: &[u8]) -> Result<Vec<(Vec<Vec<u8>>, Option<Vec<u8>>)>, String> {
    let t = parse(b)?;
    let mut v = vec![];
    for i in t.ifds.iter().filter(|i| i.group == G_IFD) {
        let find = |x: u16| i.entries.iter().find(|e| e.tag == x);
        let mut strips = vec![];
        if let (Some(o), Some(l)) = (find(0x0111), find(0x0117)) {
            if o.count != l.count {
                return Err(format!("{} strip offsets, {} strip lengths", o.count, l.count));
            }
            for k in 0..o.count as usize {
                let a = num(t.be, o.fmt, &o.raw, k).ok_or("offset format")? as usize;
                let n = num(t.be, l.fmt, &l.raw, k).ok_or("length format")? as usize;
                strips.push(b.get(a..a + n).ok_or("strip out of range")?.to_vec());
            }
        }
        let mut thumb = None;
        if let (Some(o), Some(l)) = (find(0x0201), find(0x0202)) {
            let a = num(t.be, o.fmt, &o.raw, 0).ok_or("offset format")? as usize;
            let n = num(t.be, l.fmt, &l.raw, 0).ok_or("length format")? as usize;
            thumb = Some(b.get(a..a + n).ok_or("thumbnail out of range")?.to_vec());
        }
        v.push((strips, thumb));
    }
    Ok(v)
}

fn c14(c: &mut Ctx) {
    let mut r = c.rng.clone();
    match r.below(24) {
        0..=1 => unsupported_data(c, &mut r),
        2 => incomplete(c, &mut r),
        3..=5 => thumbnail(c, &mut r),
        _ => tiff(c, &mut r),
    }
}
fn tiff(c: &mut Ctx, r: &mut Rng) {
    let mut note = vec![];
    let bytes = gen_tiff(r, &mut note);
    let img = Img { kind: Kind::Tiff, bytes, note };
    let p = parse(&img.bytes).expect("harness: generated TIFF");
    let mut want = ref_model(&img.bytes, &p).expect("harness: generated TIFF has a meaning");
    let mut data = data_of(&img.bytes).expect("harness: generated TIFF has strips");
    let pages = data.len() as u32;
    count_img(c, &img);
    c.add("pages", pages as u64);
    c.add("strips", data.iter().map(|d| d.0.len() as u64).sum());
    let mut cur = img.bytes.clone();
    let mut log = vec![];
    let rounds = r.range(1, 4);
    let ext = ext_for(r, Kind::Tiff);
    let mut done = 0;
    for _ in 0..rounds {
        let api = pick_api(r);
        let (op, res) = if r.chance(1, 4) {
            log.push("clear".to_string());
            want.tags.retain(|k, _| k.1 == G_IFD && must_survive_clear(k.2));
            ("clear", do_clear(c, api, Kind::Tiff, ext, &cur))
        } else {
            let rapi = pick_api(r);
            let mut m = match do_read(c, rapi, Kind::Tiff, ext, &cur) {
                Out::Ok(Ok(m)) => m,
                Out::Ok(Err(e)) => {
                    c.violate(format!("tiff not readable: {}", classify(&e.to_string())), format!("{} after {:?}: {}", describe(&img, rapi), log, e), &[("image", &cur)]);
                    return;
                }
                Out::Panic(p) => {
                    c.violate(format!("tiff read panics: {}", norm_panic(&p)), p, &[("image", &cur)]);
                    return;
                }
            };
            for _ in 0..r.below(6) {
                if !edit(c, r, &mut m, &mut want, pages, &mut log) {
                    c.violate("edit panics", format!("{:?}", log), &[("image", &cur)]);
                    return;
                }
            }
            want = written(&want);
            log.push(format!("write {:?}", api));
            ("write", do_write(c, api, Kind::Tiff, ext, &cur, &m))
        };
        for (i, d) in data.iter_mut().enumerate() {
            if let Some(v) = want.tags.get(&(i as u32, G_IFD, 0x0201)) {
                d.1 = Some(v[0].data.clone());
            }
        }
        let out = match res {
            Out::Ok(Res { err: None, bytes }) => bytes,
            Out::Ok(Res { err: Some(e), .. }) => {
                c.violate(format!("tiff {} fails: {}", op, classify(&e.to_string())), format!("{} after {:?}: {}", describe(&img, api), log, e), &[("image", &img.bytes), ("before", &cur)]);
                return;
            }
            Out::Panic(p) => {
                c.violate(format!("tiff {} panics: {}", op, norm_panic(&p)), format!("{} after {:?}: {}", describe(&img, api), log, p), &[("image", &img.bytes), ("before", &cur)]);
                return;
            }
        };
        c.count(&format!("op.{}", op));
        let blobs: [(&str, &[u8]); 3] = [("image", &img.bytes), ("before", &cur), ("result", &out)];
        let desc = || format!("{} after {:?}", describe(&img, api), log);
        // image data
        let now = match data_of(&out) {
            Ok(n) => n,
            Err(e) => {
                c.violate(format!("tiff {}: image data not resolvable: {}", op, classify(&e)), format!("{}: {}", desc(), e), &blobs);
                return;
            }
        };
        if now.len() != data.len() {
            c.violate(format!("tiff {} changes the number of pages", op), format!("{}: {} pages, {} before", desc(), now.len(), data.len()), &blobs);
            return;
        }
        for (i, (a, b)) in data.iter().zip(&now).enumerate() {
            if a.0 != b.0 {
                let k = a.0.iter().zip(&b.0).position(|(x, y)| x != y).unwrap_or(a.0.len().min(b.0.len()));
                c.violate(format!("tiff {} changes strip data", op), format!("{}: page {} has {} strips, {} before, strip {} differs", desc(), i, b.0.len(), a.0.len(), k), &blobs);
                return;
            }
            if a.1 != b.1 {
                c.violate(format!("tiff {} changes thumbnail data", op), format!("{}: page {}", desc(), i), &blobs);
                return;
            }
            c.add("strips_compared", a.0.len() as u64);
        }
        // tags of every page
        match carrier_model(&out) {
            Ok(mut got) => {
                if op == "clear" {
                    // more than what is needed may remain (C05 bounds it); it is adopted
                    for (k, v) in &got.tags {
                        if !want.tags.contains_key(k) && k.1 == G_IFD && tiff_keep(k.2) {
                            want.tags.insert(*k, v.clone());
                        }
                    }
                    got.tags.retain(|k, _| want.tags.contains_key(k));
                }
                if let Some(d) = want.diff(&got, "expected", "result") {
                    c.violate(format!("tiff {}: {}", op, classify(&d)), format!("{}: {}", desc(), d), &blobs);
                    return;
                }
                c.add("tags_compared", got.tags.len() as u64);
            }
            Err(e) => {
                c.violate(format!("tiff {}: result not decodable: {}", op, classify(&e)), format!("{}: {}", desc(), e), &blobs);
                return;
            }
        }
        cur = out;
        done += 1;
    }
    c.eval(pages > 1 || done > 1 || data[0].0.len() > 1, hash_bytes(&img.bytes) ^ hash_bytes(&cur).rotate_left(9));
    c.sample(|| format!("{} {} pages: {:?}", describe(&img, Api::Vec), pages, log));
}
/// read-edit-write of EXIF with a thumbnail in any container
fn thumbnail(c: &mut Ctx, r: &mut Rng) {
    let k = pick_kind(r, false);
    let fo = ForeignOpts { exceptions: false, max_tags: 6, pages: r.range(1, 2), strips: false, text_terminated: true };
    let mut t = gen_foreign(r, &fo);
    let at = r.below(t.pages.len());
    let n = r.range(1, 2000);
    let b = r.bytes(n);
    t.pages[at].entries.retain(|e| !matches!(e.1, WVal::Thumb(..)));
    t.pages[at].entries.push((0x0201, WVal::Thumb(b, 4)));
    let block = write_foreign(&t, &Layout::random(r), r);
    let img = rand_image(r, k, &[block]);
    if unsupported(&img) {
        return;
    }
    let p = cont::parse_input(k, &img.bytes).expect("harness: generated image");
    let mut want = carrier_model(&p.carriers[0]).expect("harness: generated block");
    let ext = ext_for(r, k);
    let (rapi, api) = (pick_api(r), pick_api(r));
    let mut m = match do_read(c, rapi, k, ext, &img.bytes) {
        Out::Ok(Ok(m)) => m,
        _ => {
            c.count("read_failed"); // C21
            return;
        }
    };
    let mut log = vec![];
    let pages = t.pages.len() as u32;
    for _ in 0..r.below(5) {
        if !edit(c, r, &mut m, &mut want, pages, &mut log) {
            return;
        }
    }
    want = written(&want);
    count_img(c, &img);
    c.eval(true, hash_bytes(&img.bytes));
    let out = match do_write(c, api, k, ext, &img.bytes, &m) {
        Out::Ok(Res { err: None, bytes }) => bytes,
        _ => {
            c.count("write_failed"); // C03
            return;
        }
    };
    c.count("op.thumbnail_rewrite");
    let blobs: [(&str, &[u8]); 2] = [("image", &img.bytes), ("result", &out)];
    let got = cont::parse(k, &out).and_then(|p| p.carriers.first().cloned().ok_or("no carrier".to_string())).and_then(|b| carrier_model(&b));
    match got {
        Ok(g) => {
            if let Some(d) = want.diff(&g, "expected", "embedded") {
                c.violate(format!("{} read-edit-write: {}", k.name(), classify(&d)), format!("{} after {:?}: {}", describe(&img, api), log, d), &blobs);
            }
        }
        Err(e) => c.violate(format!("{} read-edit-write: not decodable: {}", k.name(), classify(&e)), format!("{} after {:?}: {}", describe(&img, api), log, e), &blobs),
    }
}
/// image data the metadata object cannot carry: kept or refused, never destroyed
fn unsupported_data(c: &mut Ctx, r: &mut Rng) {
    let tiles = r.chance(1, 2);
    let fo = ForeignOpts { exceptions: false, max_tags: 4, pages: r.range(1, 3), strips: true, text_terminated: true };
    let mut t = gen_foreign(r, &fo);
    for d in t.pages.iter_mut() {
        make_tiff_page(r, d);
    }
    let at = r.below(t.pages.len());
    let n = r.range(1, 3);
    // offsets are filled in below, behind the end of the regular structure
    let mark: Vec<u8> = (0..n).flat_map(|_| [0xa7u8; 4]).collect();
    let d = &mut t.pages[at];
    d.entries.retain(|e| !matches!(e.0, 0x0142..=0x0145 | 0x014a));
    if tiles {
        d.entries.push((0x0144, WVal::Plain(4, mark)));
        d.entries.push((0x0145, WVal::Plain(4, (0..n).flat_map(|_| 50u32.to_le_bytes()).collect())));
    } else {
        d.entries.push((0x014a, WVal::Plain(4, mark)));
    }
    let mut b = write_foreign(&t, &Layout::random(r), r);
    let offs: Vec<usize> = {
        let p = parse(&b).expect("harness: generated TIFF");
        let e = p.ifds.iter().filter(|i| i.group == G_IFD).flat_map(|i| &i.entries).find(|e| e.tag == if tiles { 0x0144 } else { 0x014a }).unwrap();
        (0..e.count as usize).map(|i| e.raw.as_ptr() as usize * 0 + i).collect()
    };
    let at = match b.windows(4 * n).position(|w| w.iter().all(|x| *x == 0xa7)) {
        Some(p) => p,
        None => return,
    };
    let mut payload = vec![];
    for i in offs {
        let o = b.len() as u32 + 0;
        let body = if tiles {
            r.bytes(50)
        } else {
            // a tiny directory
            let mut v = if t.be { vec![0, 1, 1, 0, 0, 3, 0, 0, 0, 1, 0, 9, 0, 0] } else { vec![1, 0, 0, 1, 3, 0, 1, 0, 0, 0, 9, 0, 0, 0] };
            v.extend([0; 4]);
            v.extend(r.bytes(32));
            v
        };
        let w = if t.be { o.to_be_bytes() } else { o.to_le_bytes() };
        b[at + 4 * i..at + 4 * i + 4].copy_from_slice(&w);
        b.extend(&body);
        payload.push(body);
    }
    let img = Img { kind: Kind::Tiff, bytes: b, note: vec![if tiles { "tiles" } else { "sub-images" }] };
    count_img(c, &img);
    c.eval(true, hash_bytes(&img.bytes));
    let ext = ext_for(r, Kind::Tiff);
    let api = pick_api(r);
    let (op, res) = if r.chance(1, 2) {
        ("clear", do_clear(c, api, Kind::Tiff, ext, &img.bytes))
    } else {
        let mut m = match do_read(c, Api::Vec, Kind::Tiff, ext, &img.bytes) {
            Out::Ok(Ok(m)) => m,
            _ => return,
        };
        m.set_tag(ExifTag::ImageDescription("x".into()));
        ("write", do_write(c, api, Kind::Tiff, ext, &img.bytes, &m))
    };
    let what = img.note[0];
    match res {
        Out::Panic(p) => c.violate(format!("tiff with {}: {} panics: {}", what, op, norm_panic(&p)), p, &[("image", &img.bytes)]),
        Out::Ok(Res { err: Some(_), bytes }) => {
            c.count("refused");
            if bytes != img.bytes {
                c.violate(format!("tiff with {}: refused {} changes the image", what, op), describe(&img, api), &[("image", &img.bytes), ("result", &bytes)]);
            }
        }
        Out::Ok(Res { err: None, bytes }) => {
            c.count("carried_over");
            let ok = (|| -> Option<bool> {
                let p = parse(&bytes).ok()?;
                let e = p.ifds.iter().filter(|i| i.group == G_IFD).flat_map(|i| i.entries.iter()).find(|e| e.tag == if tiles { 0x0144 } else { 0x014a })?.clone();
                for (i, w) in payload.iter().enumerate() {
                    let o = num(p.be, e.fmt, &e.raw, i)? as usize;
                    if bytes.get(o..o + w.len())? != &w[..] {
                        return Some(false);
                    }
                }
                Some(e.count as usize == payload.len())
            })();
            if ok != Some(true) {
                c.violate(format!("tiff with {}: {} destroys them", what, op), describe(&img, api), &[("image", &img.bytes), ("result", &bytes)]);
            }
        }
    }
}

/// metadata without a field that is needed to find or decode the pixels would
/// make an unusable file of the target, so writing it has to be refused
fn incomplete(c: &mut Ctx, r: &mut Rng) {
    let mut note = vec!["incomplete-metadata"];
    let bytes = gen_tiff(r, &mut note);
    let img = Img { kind: Kind::Tiff, bytes, note };
    count_img(c, &img);
    c.eval(true, hash_bytes(&img.bytes));
    let ext = ext_for(r, Kind::Tiff);
    let api = pick_api(r);
    let mut m = match do_read(c, Api::Vec, Kind::Tiff, ext, &img.bytes) {
        Out::Ok(Ok(m)) => m,
        _ => return,
    };
    const NEED: [u16; 10] = [0x0100, 0x0101, 0x0103, 0x0106, 0x0111, 0x0116, 0x0117, 0x011a, 0x011b, 0x0128];
    let t = if r.chance(1, 8) {
        // metadata of an image that is no TIFF
        let g = gen_meta(r, &GenOpts::default());
        if NEED.iter().all(|t| g.model.tags.contains_key(&(0, G_IFD, *t))) {
            return;
        }
        m = g.meta;
        0
    } else {
        let t = *r.pick(&NEED);
        m.remove_tag_by_hex_group(t, ExifTagGroup::GENERIC);
        if t == 0x0111 || t == 0x0117 {
            // (either both or none of them)
            m.remove_tag_by_hex_group(0x0111, ExifTagGroup::GENERIC);
            m.remove_tag_by_hex_group(0x0117, ExifTagGroup::GENERIC);
        }
        t
    };
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    match do_write(c, api, Kind::Tiff, ext, &img.bytes, &m) {
        Out::Panic(p) => c.violate(format!("tiff write without {:04x} panics: {}", t, norm_panic(&p)), p, &blobs),
        Out::Ok(Res { err: Some(_), bytes }) => {
            c.count("incomplete_refused");
            if bytes != img.bytes {
                c.violate(format!("tiff write without {:04x}: refused but the image changed", t), describe(&img, api), &[("image", &img.bytes), ("result", &bytes)]);
            }
        }
        Out::Ok(Res { err: None, bytes }) => {
            c.violate(format!("tiff write of metadata without {:04x} leaves a TIFF without it", t), describe(&img, api), &[("image", &img.bytes), ("result", &bytes)]);
        }
    }
}
