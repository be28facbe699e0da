//! C07: encoder output is a valid TIFF structure carrying exactly the tags.
//! C08: decoder agrees with the independent reference decoder.
use crate::exif::*;
use crate::gen::*;
use crate::rng::*;
use crate::run::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension;
use little_exif::ifd::ExifTagGroup;
use little_exif::metadata::Metadata;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "a case is one metadata object reached by a random history (random known/unknown tags of all formats and lengths, both byte orders, several directories, thumbnails, strips, foreign blocks read and edited, user-set offset tags) whose encoding is checked by an independent structural validator and compared with the expected tags; non-trivial: at least two entries or one sub-directory or out-of-line value; distinct by the encoded bytes",
            assumptions: &["objects hold at most one entry per tag and directory, contiguous directory numbers (numbers are positional in the encoding), and total encoded size below 4 GiB"],
            quick: 600_000,
            thorough: 24_000_000,
            run: c07,
            min_nontrivial: 5_000,
        },
        Prop {
            id: "C08",
            rule: "a case is one foreign TIFF/EXIF block from an independent writer with randomised layout (byte order, block order, gaps, odd offsets, unsorted entries, chained and sub-directories, convertible recorded formats), decoded by the library and by the independent decoder and compared tag by tag; some cases again with another header, which must be refused; one in fifteen also with an integer that does not fit the format of its tag, which must not be altered; non-trivial: at least two tags; distinct by block bytes",
            assumptions: &["known tags are recorded in their own or a convertible format; text bytes that are not UTF-8 denote Latin-1"],
            quick: 500_000,
            thorough: 20_000_000,
            run: c08,
            min_nontrivial: 5_000,
        },
    ]
}

fn c07(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mode = r.below(10);
    let (meta, mut model, how): (Metadata, Model, &str);
    let mut extra = vec![];
    if r.chance(1, 3000) {
        // a directory with (nearly) as many tags as its entry count can express, or one more
        let n = *r.pick(&[65535u32, 65535, 65535, 65503, 40000, 32768]);
        let mut b = vec![0x4d, 0x4d, 0, 42, 0, 0, 0, 8, 0, 1, 0x88, 0x25, 0, 4, 0, 0, 0, 1, 0, 0, 0, 26, 0, 0, 0, 0];
        let known_gps: Vec<_> = all_known().iter().filter(|k| k.0 == G_GPS).cloned().collect();
        let ids: Vec<u16> = (0..=0xffffu32).map(|t| t as u16).filter(|t| !known_gps.iter().any(|k| k.1 == *t)).take(n as usize).collect();
        b.extend((ids.len() as u16).to_be_bytes());
        for t in &ids {
            b.extend(t.to_be_bytes());
            b.extend([0, 3, 0, 0, 0, 1]);
            b.extend(t.rotate_left(5).to_be_bytes());
            b.extend([0, 0]);
        }
        b.extend([0; 4]);
        match c.call("read foreign", b.len(), || Metadata::new_from_vec(&b, FileExtension::TIFF)) {
            Out::Ok(Ok(m)) => {
                model = model_of(&m);
                meta = m;
                how = "crowded";
            }
            _ => {
                c.count("foreign_unreadable");
                return;
            }
        }
        for (g, t, f, _) in known_gps {
            extra.push((g, t, rand_val(&mut r, f, false)));
        }
        let keep = if r.chance(1, 2) { extra.len() } else { r.below(extra.len() + 1) };
        extra.truncate(keep);
    } else if mode < 6 {
        let g = gen_meta(&mut r, &GenOpts { max_tags: 40, ..Default::default() });
        meta = g.meta;
        model = g.model;
        how = "built";
    } else if mode < 8 {
        let mut g = gen_meta(&mut r, &GenOpts::default());
        add_tiff_required(&mut r, &mut g, 0);
        meta = g.meta;
        model = g.model;
        how = "built+strips";
    } else {
        let o = ForeignOpts { exceptions: false, max_tags: 10, pages: r.range(1, 3), strips: r.chance(1, 3), text_terminated: true };
        let t = gen_foreign(&mut r, &o);
        let l = Layout::random(&mut r);
        let b = write_foreign(&t, &l, &mut r);
        match c.call("read foreign", b.len(), || Metadata::new_from_vec(&b, FileExtension::TIFF)) {
            Out::Ok(Ok(m)) => {
                model = model_of(&m); // what the object holds; C08 judges the decoding itself
                meta = m;
                how = "foreign";
            }
            _ => {
                c.count("foreign_unreadable");
                return;
            }
        }
    }
    let mut meta = meta;
    for (g, t, v) in extra {
        meta.set_tag(make_tag(g, t, &v));
        model.set((0, g, t), v);
    }
    // an encoding made before further edits, or of a changed clone, must leave no trace
    let early = r.chance(1, 3) && how != "crowded";
    // further edits: replacement, removal, user-set offset tags, empty directories
    for i in 0..r.below(5) {
        if early && (i == 0 || r.chance(1, 3)) {
            c.count("early_encodings");
            let mut other = if r.chance(1, 3) { Some(meta.clone()) } else { None };
            if let Some(o) = &mut other {
                let (g, t, v) = rand_tag(&mut r, false, true);
                o.set_tag(make_tag(g, t, &v));
            }
            let m = other.as_ref().unwrap_or(&meta);
            let _ = c.call("early encode", 1 << 20, || m.encode().is_ok());
        }
        match r.below(8) {
            7 if how != "crowded" => {
                // the contents of a directory replaced at once, in any order
                let g = *r.pick(&[G_IFD, G_EXIF, G_GPS, G_INTEROP]);
                let nr = meta.get_max_generic_ifd_number();
                if model.tags.keys().any(|k| k.0 == nr && k.1 == g && is_data_tag(k.2)) {
                    continue;
                }
                let mut new: std::collections::BTreeMap<u16, Val> = Default::default();
                for _ in 0..r.below(7) {
                    let (tg, t, v) = rand_tag(&mut r, false, true);
                    if grp_code(make_tag(tg, t, &v).get_group()) == g {
                        new.insert(t, v);
                    }
                }
                let mut tags: Vec<ExifTag> = new.iter().map(|(t, v)| make_tag(g, *t, v)).collect();
                for i in (1..tags.len()).rev() {
                    tags.swap(i, r.below(i + 1));
                }
                c.count("directories_replaced");
                *meta.get_ifd_mut(grp(g), nr) = little_exif::ifd::ImageFileDirectory::new_with_tags(tags, grp(g), nr);
                model.tags.retain(|k, _| !(k.0 == nr && k.1 == g));
                for (t, v) in new {
                    model.set((nr, g, t), v);
                }
            }
            0..=2 => {
                let (g, t, v) = rand_tag(&mut r, false, true);
                meta.set_tag(make_tag(g, t, &v));
                model.set((0, g, t), v);
            }
            3 => {
                let keys: Vec<Key> = model.tags.keys().cloned().filter(|k| !is_data_tag(k.2)).collect();
                if !keys.is_empty() {
                    let k = *r.pick(&keys);
                    meta.remove_tag_by_hex_group(k.2, grp(k.1));
                    model.tags.retain(|x, _| !(x.1 == k.1 && x.2 == k.2));
                }
            }
            4 => {
                let t = match r.below(3) {
                    0 => ExifTag::ExifOffset(vec![r.u32()]),
                    1 => ExifTag::GPSInfo(vec![]),
                    _ => ExifTag::InteropOffset(vec![r.u32(), 1]),
                };
                c.count("user_set_offset_tags");
                meta.set_tag(t);
            }
            5 => meta.create_ifd(*r.pick(&[ExifTagGroup::EXIF, ExifTagGroup::GPS, ExifTagGroup::INTEROP]), 0),
            _ => {
                meta.get_ifd_mut(ExifTagGroup::GENERIC, 0);
                let n = meta.get_max_generic_ifd_number() + 1;
                if n < 5 {
                    let (g, t, v) = rand_tag(&mut r, true, true);
                    meta.get_ifd_mut(ExifTagGroup::GENERIC, n);
                    meta.get_ifd_mut(grp(g), n).set_tag(make_tag(g, t, &v));
                    model.set((n, g, t), v);
                }
            }
        }
    }
    let expect = written(&model);
    let dirs: Vec<(u32, u8)> = meta.get_ifds().iter().map(|i| (i.get_generic_ifd_nr(), grp_code(i.get_ifd_type()))).collect();
    let enc = match c.call("encode", 0, || meta.encode()) {
        Out::Ok(Ok(b)) => b,
        Out::Ok(Err(_)) if expect.tags.keys().filter(|k| k.1 == G_GPS).count() > 65535 => {
            c.eval(true, model.tags.len() as u64);
            c.count("too_many_tags_refused");
            return;
        }
        Out::Ok(Err(e)) => {
            c.violate(format!("encode fails: {}", norm_panic(&e.to_string())), format!("{} object {}: encode returned an error: {}", how, model.describe(), e), &[]);
            return;
        }
        Out::Panic(p) => {
            c.violate(format!("encode panics: {}", norm_panic(&p)), format!("{} object {}: {}", how, model.describe(), p), &[]);
            return;
        }
    };
    let entries: usize = expect.tags.len();
    let nontrivial = entries >= 2 || dirs.len() > 1 || expect.tags.values().any(|v| v[0].data.len() > 4);
    c.eval(nontrivial, hash_bytes(&enc));
    c.count(&format!("source.{}", how));
    c.add("entries", entries as u64);
    c.add("out_of_line", expect.tags.values().filter(|v| v[0].data.len() > 4).count() as u64);
    c.count(&format!("dirs.{}", dirs.len().min(9)));
    if model.be {
        c.count("big_endian");
    }
    c.sample(|| format!("{} {} -> {} bytes, {} directories", how, expect.describe(), enc.len(), dirs.len()));
    // byte-order mark, structure
    if expect.tags.is_empty() && dirs.is_empty() {
        // nothing to encode: only the header is required
        let (h, o): (&[u8], u32) = if model.be { (b"MM\0*", 8) } else { (b"II*\0", 8) };
        let off = if model.be { crate::cont::be32(&enc, 4) } else { crate::cont::le32(&enc, 4) };
        if !enc.starts_with(h) || !(off == Some(o) && enc.len() >= 8 || off == Some(0)) {
            c.violate("encoding of an empty object has no TIFF header", format!("{:02x?}", enc), &[("enc", &enc)]);
        }
        return;
    }
    let t = match validate(&enc) {
        Ok(t) => t,
        Err(e) => {
            c.violate(format!("invalid structure: {}", classify(&e)), format!("{} object {} dirs {:?}: {}", how, expect.describe(), dirs, e), &[("enc", &enc)]);
            return;
        }
    };
    c.count("validated_blocks");
    // directories: exactly those that exist in the object
    let mut have: Vec<(u32, u8)> = t.ifds.iter().map(|i| (i.nr, i.group)).collect();
    let mut want = dirs.clone();
    have.sort();
    want.sort();
    if have != want {
        c.violate("encoded directories differ from the object's directories", format!("{}: object has {:?}, encoding has {:?}", how, want, have), &[("enc", &enc)]);
        return;
    }
    match ref_model(&enc, &t) {
        Ok(m) => {
            if let Some(d) = expect.diff(&m, "object", "encoding") {
                c.violate(format!("encoded values differ: {}", classify(&d)), format!("{}: {}", how, d), &[("enc", &enc)]);
            }
        }
        Err(e) => c.violate(format!("encoded values not decodable: {}", classify(&e)), e, &[("enc", &enc)]),
    }
}

/// message with numbers and hex identifiers blanked: a stable class of failure
pub fn classify(s: &str) -> String {
    let s = s.split('[').next().unwrap_or("");
    let mut o = String::new();
    let mut tok = String::new();
    let flush = |tok: &mut String, o: &mut String| {
        if tok.chars().any(|c| c.is_ascii_digit()) || (tok.len() == 4 && tok.chars().all(|c| c.is_ascii_hexdigit())) {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push_str(tok);
        }
        tok.clear();
    };
    for ch in s.chars().take(240) {
        if ch.is_ascii_alphanumeric() {
            tok.push(ch);
        } else {
            flush(&mut tok, &mut o);
            o.push(ch);
        }
    }
    flush(&mut tok, &mut o);
    o.truncate(o.char_indices().nth(110).map(|x| x.0).unwrap_or(o.len()));
    o.trim().to_string()
}

pub fn rat_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len()
        && a.chunks_exact(8).zip(b.chunks_exact(8)).all(|(x, y)| {
            let f = |c: &[u8]| (i32::from_le_bytes(c[0..4].try_into().unwrap()) as i128, i32::from_le_bytes(c[4..8].try_into().unwrap()) as i128);
            let ((n, d), (m, e)) = (f(x), f(y));
            if d == 0 || e == 0 {
                return d == e && n.signum() == m.signum();
            }
            n * e == m * d
        })
}

fn c08(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut o = ForeignOpts { exceptions: r.chance(1, 2), max_tags: r.range(1, 14), pages: if r.chance(3, 4) { 1 } else { r.range(2, 4) }, strips: r.chance(1, 5), text_terminated: false };
    let crowd = r.chance(1, 2000);
    if crowd {
        o = ForeignOpts { max_tags: 2, pages: r.range(5, 700), strips: false, ..o };
    }
    let t = gen_foreign(&mut r, &o);
    let l = Layout::random(&mut r);
    let b = write_foreign(&t, &l, &mut r);
    let rt = match parse(&b) {
        Ok(x) => x,
        Err(e) => panic!("harness: own block does not parse: {}", e),
    };
    let want = match ref_model(&b, &rt) {
        Ok(m) => m,
        Err(e) => panic!("harness: own block has no meaning: {}", e),
    };
    c.eval(want.tags.len() >= 2, hash_bytes(&b));
    c.add("tags", want.tags.len() as u64);
    c.add("directories", rt.ifds.len() as u64);
    c.count(if t.be { "big_endian" } else { "little_endian" });
    let exc = rt.ifds.iter().flat_map(|i| i.entries.iter().map(move |e| (i.group, e))).filter(|(g, e)| known(*g, e.tag).map(|k| k.1 != e.fmt).unwrap_or(false)).count();
    c.add("converted_formats", exc as u64);
    if l.unsorted {
        c.count("unsorted_layouts");
    }
    if l.odd {
        c.count("odd_layouts");
    }
    c.sample(|| format!("block of {} bytes, {} directories, {}", b.len(), rt.ifds.len(), want.describe()));
    // carrier: bare TIFF, or behind the EXIF prefix in a JPEG
    let jpeg = r.chance(1, 4) && b.len() < 60_000;
    let (buf, ft) = if jpeg {
        let mut j = vec![0xff, 0xd8, 0xff, 0xe1];
        j.extend(((b.len() + 8) as u16).to_be_bytes());
        j.extend(b"Exif\0\0");
        j.extend(&b);
        j.extend([0xff, 0xda, 0, 2, 1, 2, 3, 0xff, 0xd9]);
        (j, FileExtension::JPEG)
    } else {
        (b.clone(), FileExtension::TIFF)
    };
    c.count(if jpeg { "via_jpeg" } else { "via_tiff" });
    let got = match c.call("read", buf.len(), || Metadata::new_from_vec(&buf, ft)) {
        Out::Ok(Ok(m)) => m,
        Out::Ok(Err(e)) => {
            c.violate(format!("well-formed block refused: {}", classify(&e.to_string())), format!("{}: {}", want.describe(), e), &[("block", &b)]);
            return;
        }
        Out::Panic(p) => {
            c.violate(format!("decoder panics: {}", norm_panic(&p)), p, &[("block", &b)]);
            return;
        }
    };
    let mut have = model_of(&got);
    // unsigned rational recorded for a signed tag: numerically equal is required, not the same fraction
    for (k, v) in &want.tags {
        if v[0].fmt == 10 {
            if let Some(h) = have.tags.get_mut(k) {
                if h.len() == 1 && h[0].fmt == 10 && h[0].data != v[0].data && rat_eq(&h[0].data, &v[0].data) && known(k.1, k.2).is_some() {
                    *h = v.clone();
                }
            }
        }
    }
    if let Some(d) = want.diff(&have, "reference decoder", "library") {
        c.violate(format!("decoded value differs: {}", classify(&d)), d, &[("block", &b)]);
        return;
    }
    if r.chance(1, 15) {
        too_large(c, &mut r);
    }
    // without the byte order mark and the number 42 it is not TIFF data at all
    if r.chance(1, 12) {
        let mut x = b.clone();
        let h = if r.chance(1, 3) {
            let mut h = r.bytes(4);
            if r.chance(1, 2) {
                let m: &[u8] = r.pick(&[&b"II"[..], b"MM"]);
                h[..2].copy_from_slice(m);
            }
            h
        } else if r.chance(1, 2) {
            r.pick(&[b"IM*\0", b"MI\0*", b"MM*\0", b"II\0*", b"II+\0", b"MM\0+", b"\0\0\0\0", b"II\0\0", b"MM\0\0", b"ii*\0", b"II**", b"MM**"]).to_vec()
        } else {
            let mut h = b[..4].to_vec();
            h[r.below(4)] ^= 1 << r.below(8);
            h
        };
        x[..4].copy_from_slice(&h);
        if &h != b"II*\0" && &h != b"MM\0*" {
            c.count("foreign_headers");
            if let Out::Ok(Ok(m)) = c.call("read", x.len(), || Metadata::new_from_vec(&x, FileExtension::TIFF)) {
                c.violate("data without a TIFF header is taken for EXIF", format!("header {:02x?} gives {}", h, model_of(&m).describe()), &[("block", &x)]);
                return;
            }
        }
    }
    // directories are attributed to the right page; nothing but the block's directories
    let mut dw: Vec<(u32, u8)> = rt.ifds.iter().map(|i| (i.nr, i.group)).collect();
    let mut dh: Vec<(u32, u8)> = got.get_ifds().iter().map(|i| (i.get_generic_ifd_nr(), grp_code(i.get_ifd_type()))).collect();
    dw.sort();
    dh.sort();
    if dw != dh {
        c.violate("decoded directories differ", format!("block {:?} library {:?}", dw, dh), &[("block", &b)]);
    }
}

/// a number recorded in a larger format than the tag's own, which cannot hold it
fn too_large(c: &mut Ctx, r: &mut Rng) {
    let (g, t, own, sub) = loop {
        let (g, t, v) = rand_tag(r, true, false);
        if let Some(k) = known(g, t) {
            if (k.1 == 3 || k.1 == 1) && is_offset_tag(g, t).is_none() && v.fmt == k.1 {
                break (g, t, k.1, g != G_IFD);
            }
        }
    };
    let n = r.range(1, 6);
    let (fmt, lim) = if own == 3 { (4u16, 0x1_0000u64) } else { (3, 0x100) };
    let top: u64 = if fmt == 4 { u32::MAX as u64 } else { u16::MAX as u64 };
    let at = r.below(n);
    let data: Vec<u8> = (0..n)
        .flat_map(|i| {
            let x = match r.below(4) {
                _ if i != at => r.below(lim as usize) as u64,
                0 => lim,
                1 => top,
                2 => lim * (1 + r.below((top / lim) as usize) as u64),
                _ => lim + (r.u32() as u64) % (top - lim),
            };
            x.to_le_bytes()[..if fmt == 4 { 4 } else { 2 }].to_vec()
        })
        .collect();
    let mut w = WTiff { be: r.chance(1, 2), pages: vec![WDir::default()] };
    let e = WDir { entries: vec![(t, WVal::Plain(fmt, data.clone()))], ..Default::default() };
    match (sub, g) {
        (false, _) => w.pages[0] = e,
        (_, G_EXIF) => w.pages[0].exif = Some(Box::new(e)),
        (_, G_GPS) => w.pages[0].gps = Some(Box::new(e)),
        _ => {
            w.pages[0].exif = Some(Box::new(WDir { interop: Some(Box::new(e)), ..Default::default() }));
        }
    }
    let l = Layout::random(r);
    let b = write_foreign(&w, &l, r);
    c.count("values_too_large");
    match c.call("read", b.len(), || Metadata::new_from_vec(&b, FileExtension::TIFF)) {
        Out::Ok(Ok(m)) => {
            let m = model_of(&m);
            // (kept in the recorded format would be fine)
            let kept = m.tags.get(&(0, g, t)).is_some_and(|v| v.iter().any(|v| v.fmt == fmt && v.data == data));
            if !kept {
                c.violate(format!("number too large for a tag of format {} is altered", own), format!("tag {:04x}: format {} data {:02x?} becomes {}", t, fmt, data, m.describe()), &[("block", &b)]);
            }
        }
        Out::Ok(Err(_)) => c.count("values_too_large_refused"),
        Out::Panic(p) => c.violate(format!("decoder panics: {}", norm_panic(&p)), p, &[("block", &b)]),
    }
}
