//! C16: PNG text and XMP content survives except for EXIF properties.
use crate::cont::{self, png, xml, Img, Kind, Opts};
use crate::gen::rand_text;
use crate::props::block::classify;
use crate::props::image::*;
use crate::rng::*;
use crate::run::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "a case writes EXIF to or clears a generated PNG with 1 to 8 textual chunks of the three types (XMP packets, look-alike keywords, other text, raw profiles of other kinds), up to three times through either API; every textual chunk that is no EXIF carrier must be byte-identical, in order, except that an XMP packet may have lost exactly its exif: elements and attributes, which two token streams of an independent XML tokenizer decide; non-trivial: at least one XMP packet; distinct by image bytes",
        assumptions: &["white space between XML tokens is immaterial", "EXIF properties are those with the prefix exif:"],
        quick: 120_000,
        thorough: 4_800_000,
        run: c16,
        min_nontrivial: 8_000,
    }]
}
fn is_carrier(c: &png::Chunk) -> bool {
    c.ty == b"eXIf" || is_text(c.ty) && c.data.split(|x| *x == 0).next() == Some(b"Raw profile type exif")
}
fn is_text(ty: &[u8]) -> bool {
    matches!(ty, b"tEXt" | b"zTXt" | b"iTXt")
}
fn is_xmp(c: &png::Chunk) -> bool {
    is_text(c.ty) && c.data.split(|x| *x == 0).next() == Some(b"XML:com.adobe.xmp")
}
fn gen_png(r: &mut Rng) -> Img {
    let blocks = rand_blocks(r, Kind::Png, true);
    let base = cont::gen(Kind::Png, r, &Opts { exif: blocks, bulk: 300 });
    let (cs, trailer) = png::chunks(&base.bytes).expect("harness: generated PNG");
    let mut list: Vec<(Vec<u8>, Vec<u8>)> = cs.iter().map(|c| (c.ty.to_vec(), c.data.to_vec())).collect();
    let mut note = base.note.clone();
    for _ in 0..r.range(1, 4) {
        let (ty, mut d): (Vec<u8>, Vec<u8>) = if r.chance(2, 3) {
            let k = if r.chance(1, 20) { 5000 } else { 40 };
            let x = xml::gen_packet(r, k);
            let (t, d) = png::text_chunk(r, b"XML:com.adobe.xmp", &x);
            note.push(match (t, d[d.len().min(18)..].first()) {
                (b"iTXt", Some(1)) => "xmp-iTXt-compressed",
                (b"iTXt", _) => "xmp-iTXt",
                (b"zTXt", _) => "xmp-zTXt",
                _ => "xmp-tEXt",
            });
            (t.to_vec(), d)
        } else {
            let n = r.below(60);
            let t = if r.chance(1, 3) { xml::gen_packet(r, 0) } else { rand_text(r, n) };
            let kw = *r.pick(&[&b"Comment"[..], b"Raw profile type iptc", b"Raw profile type xmp", b"Raw profile type APP1", b"raw profile type exif", b"XML:com.adobe.XMP", b"xml", b"Description"]);
            let (ty, d) = png::text_chunk(r, kw, &t);
            (ty.to_vec(), d)
        };
        // a damaged XMP chunk: compressed data or its header broken
        if r.chance(1, 12) && d.starts_with(b"XML:com.adobe.xmp\0") && d.len() > 30 {
            match r.below(3) {
                0 => {
                    let n = r.range(18, d.len() - 1);
                    d.truncate(n);
                }
                1 => {
                    let n = r.range(18, d.len() - 1);
                    d[n] ^= 0x55;
                }
                _ => d[18] = r.u8(),
            }
            note.push("xmp-damaged");
        }
        let at = r.range(1, list.len() - 1);
        // keep IDAT chunks together
        let at = if list[at].0 == b"IDAT" { list.iter().position(|c| c.0 == b"IDAT").unwrap() } else { at };
        list.insert(at, (ty, d));
    }
    let mut out = base.bytes[..8].to_vec();
    for (t, d) in &list {
        png::put(&mut out, t, d);
    }
    out.extend(trailer);
    Img { kind: Kind::Png, bytes: out, note }
}
fn c16(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = gen_png(&mut r);
    let mut cur = img.bytes.clone();
    let ext = ext_for(&mut r, Kind::Png);
    count_img(c, &img);
    let mut packets = 0;
    let mut log = vec![];
    for _ in 0..r.range(1, 3) {
        let api = pick_api(&mut r);
        let (op, res) = if r.chance(1, 2) {
            ("clear", do_clear(c, api, Kind::Png, ext, &cur))
        } else {
            let g = meta_for(&mut r, Kind::Png);
            ("write", do_write(c, api, Kind::Png, ext, &cur, &g.meta))
        };
        log.push(op);
        let out = match res {
            Out::Ok(Res { err: None, bytes }) => bytes,
            Out::Ok(Res { err: Some(e), .. }) => {
                c.violate(format!("png {} fails: {}", op, classify(&e.to_string())), format!("{}: {}", describe(&img, api), e), &[("image", &img.bytes), ("before", &cur)]);
                return;
            }
            Out::Panic(p) => {
                c.violate(format!("png {} panics: {}", op, norm_panic(&p)), format!("{}: {}", describe(&img, api), p), &[("image", &img.bytes), ("before", &cur)]);
                return;
            }
        };
        let blobs: [(&str, &[u8]); 3] = [("image", &img.bytes), ("before", &cur), ("result", &out)];
        let (b, _) = png::chunks(&cur).expect("harness");
        let a = match png::chunks(&out) {
            Ok((a, _)) => a,
            Err(e) => {
                c.violate(format!("png {}: result malformed: {}", op, classify(&e)), format!("{} {:?}: {}", describe(&img, api), log, e), &blobs);
                return;
            }
        };
        let b: Vec<&png::Chunk> = b.iter().filter(|c| is_text(c.ty) && !is_carrier(c)).collect();
        let a: Vec<&png::Chunk> = a.iter().filter(|c| is_text(c.ty) && !is_carrier(c)).collect();
        if a.len() != b.len() {
            c.violate(format!("png {} changes the number of textual chunks", op), format!("{} {:?}: {} before, {} after", describe(&img, api), log, b.len(), a.len()), &blobs);
            return;
        }
        for (i, (x, y)) in b.iter().zip(&a).enumerate() {
            let n = String::from_utf8_lossy(x.ty).to_string();
            c.count(&format!("text.{}", n));
            if x.ty != y.ty {
                c.violate(format!("png {} changes the type of a textual chunk", op), format!("{} {:?}: {} became {}", describe(&img, api), log, n, String::from_utf8_lossy(y.ty)), &blobs);
                return;
            }
            if !is_xmp(x) {
                if x.data != y.data {
                    c.violate(format!("png {} changes a {} chunk", op, n), format!("{} {:?}: chunk {}", describe(&img, api), log, i), &blobs);
                    return;
                }
                continue;
            }
            packets += 1;
            let t = match png::text(x.ty, x.data) {
                Ok(t) => t,
                Err(_) => {
                    c.count("packet.unreadable");
                    if x.ty == b"iTXt" && x.data.get(18).is_some_and(|f| *f > 1) {
                        continue; // undefined compression flag: no claim how it is read
                    }
                    if x.data != y.data {
                        c.violate(format!("png {} changes an unreadable XMP {} chunk", op, n), format!("{} {:?}: chunk {}", describe(&img, api), log, i), &blobs);
                        return;
                    }
                    continue;
                }
            };
            let u = match png::text(y.ty, y.data) {
                Ok(u) => u,
                Err(e) => {
                    c.violate(format!("png {}: XMP {} chunk no longer readable: {}", op, n, classify(&e)), format!("{} {:?}: {}", describe(&img, api), log, e), &blobs);
                    return;
                }
            };
            if t.keyword != u.keyword || t.fields != u.fields {
                c.violate(format!("png {} changes keyword or fields of an XMP {} chunk", op, n), format!("{} {:?}: {:?} became {:?}", describe(&img, api), log, t.fields, u.fields), &blobs);
                return;
            }
            match xml::judge(&t.text, &u.text) {
                Ok(k) => {
                    c.count(&format!("packet.{}", k));
                    if !k.starts_with("exif properties removed") && x.data != y.data {
                        c.violate(format!("png {} rewrites an XMP {} chunk that holds no EXIF properties", op, n), format!("{} {:?}: {}", describe(&img, api), log, k), &blobs);
                        return;
                    }
                }
                Err(e) => {
                    c.violate(format!("png {}: XMP {}: {}", op, n, e.split(':').next().unwrap_or("")), format!("{} {:?}: {}\nbefore: {}\nafter: {}", describe(&img, api), log, e, String::from_utf8_lossy(&t.text), String::from_utf8_lossy(&u.text)), &blobs);
                    return;
                }
            }
        }
        cur = out;
    }
    c.eval(packets > 0, hash_bytes(&img.bytes));
    c.sample(|| format!("{} {:?}: {} packets judged", describe(&img, Api::Vec), log, packets));
}
