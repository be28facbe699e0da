use super::*;

fn app_name(m: u8) -> String {
    format!("seg-{:02X}", m)
}
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    if !b.starts_with(&[0xff, 0xd8]) {
        return Err("no SOI marker".into());
    }
    let mut p = Parsed::default();
    let mut o = 2;
    let mut scans = 0;
    loop {
        // marker, possibly preceded by fill bytes
        if b.get(o) != Some(&0xff) {
            return Err(format!("expected a marker at {}, found {:02x?}", o, b.get(o)));
        }
        while b.get(o) == Some(&0xff) {
            o += 1;
        }
        let m = *b.get(o).ok_or("file ends inside a marker")?;
        o += 1;
        match m {
            0xd9 => {
                if scans == 0 {
                    return Err("EOI before any scan".into());
                }
                if o < b.len() {
                    p.part("trailer", &b[o..]);
                }
                return Ok(p);
            }
            0x00 | 0xd8 => return Err(format!("marker FF{:02X} between segments at {}", m, o)),
            0x01 | 0xd0..=0xd7 => {
                p.part(app_name(m), &[]);
                continue;
            }
            _ => (),
        }
        let len = be16(b, o).ok_or("file ends inside a segment length")? as usize;
        if len < 2 {
            return Err(format!("segment FF{:02X} at {} has length {}", m, o, len));
        }
        let data = b.get(o + 2..o + len).ok_or(format!("segment FF{:02X} at {} of length {} runs past the end", m, o, len))?;
        o += len;
        if m == 0xe1 && data.starts_with(b"Exif\0\0") {
            p.carriers.push(data[6..].to_vec());
            continue;
        }
        p.part(app_name(m), data);
        if m == 0xda {
            scans += 1;
            let s = o;
            loop {
                match b.get(o) {
                    None => return Err("scan data without a following marker".into()),
                    Some(0xff) => {
                        let mut k = o + 1;
                        while b.get(k) == Some(&0xff) {
                            k += 1;
                        }
                        match b.get(k) {
                            None => return Err("scan data without a following marker".into()),
                            Some(0x00) | Some(0xd0..=0xd7) => o = k + 1,
                            Some(_) => break,
                        }
                    }
                    Some(_) => o += 1,
                }
            }
            p.part("ecs", &b[s..o]);
        }
    }
}

fn seg(out: &mut Vec<u8>, m: u8, d: &[u8], r: &mut Rng, fill: bool) {
    if fill && r.chance(1, 6) {
        for _ in 0..r.range(1, 4) {
            out.push(0xff);
        }
    }
    out.push(0xff);
    out.push(m);
    out.extend(((d.len() + 2) as u16).to_be_bytes());
    out.extend(d);
}
/// payload bytes that look like markers, EXIF prefixes and so on
pub fn tricky(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < n {
        match r.below(8) {
            0 => v.extend([0xff, *r.pick(&[0xe1u8, 0xec, 0xed, 0xd9, 0xda, 0xd8, 0xff, 0x00])]),
            1 => v.extend(b"Exif\0\0"),
            2 => v.extend([0xff, 0xe1, 0x00, 0x10]),
            3 => v.extend([0xff, 0xec, 0x00, 0x04, 1, 2]),
            4 => v.extend(b"II*\0\x08\0\0\0"),
            _ => {
                let k = r.range(1, 20);
                v.extend(r.bytes(k))
            }
        }
    }
    v.truncate(n);
    v
}
fn ecs(r: &mut Rng, out: &mut Vec<u8>, n: usize, fill: bool) {
    let start = out.len();
    while out.len() < start + n {
        match r.below(10) {
            0 => out.extend([0xff, 0x00]),
            1 => out.extend([0xff, 0xd0 + r.below(8) as u8]),
            2 if fill => out.extend([0xff, 0xff, 0xd0 + r.below(8) as u8]),
            3 if r.chance(1, 2) => out.extend([0xff, 0x00, 0x00, r.below(90) as u8]),
            3 => out.extend([0xff, 0x00, 0xe1, 0xec, 0xed]),
            4 => out.extend(b"Exif\0\0"),
            _ => out.push(r.below(255) as u8),
        }
    }
    if out.last() == Some(&0xff) {
        out.push(0);
    }
}
pub fn gen(r: &mut Rng, o: &Opts) -> Img {
    let mut note = vec![];
    let mut out = vec![0xff, 0xd8];
    let fill = r.chance(1, 5);
    if fill {
        note.push("fill-bytes");
    }
    let mut segs: Vec<(u8, Vec<u8>)> = vec![];
    let bulk = o.bulk.min(65533);
    let n = r.below(6);
    for _ in 0..n {
        let k = match r.below(8) {
            0 => 0,
            1 => r.below(8),
            2 => r.below(bulk + 1),
            _ => r.below(60),
        };
        let m = *r.pick(&[0xe2u8, 0xe3, 0xec, 0xec, 0xed, 0xed, 0xee, 0xef, 0xfe, 0xe0, 0xe4, 0xe1]);
        let mut d = tricky(r, k);
        match m {
            0xec => note.push("app12"),
            0xed => {
                note.push("app13");
                if r.chance(1, 2) {
                    let mut x = b"Photoshop 3.0\0".to_vec();
                    x.extend(&d);
                    x.truncate(65533);
                    d = x;
                }
            }
            0xe1 => {
                // APP1 that is not EXIF: XMP, extended XMP, other or short payloads
                d = match r.below(7) {
                    5 => [&b"Exif\0"[..], &[r.range(1, 255) as u8], &d[..]].concat(),
                    6 => [&b"Exif"[..], &[r.range(1, 255) as u8, 0], b"II*\0\x08\0\0\0", &d[..]].concat(),
                    0 => [&b"http://ns.adobe.com/xap/1.0/\0"[..], b"<x:xmpmeta xmlns:x='adobe:ns:meta/'/>"].concat(),
                    1 => [&b"http://ns.adobe.com/xmp/extension/\0"[..], &d[..]].concat(),
                    2 => b"Exif"[..r.below(5)].to_vec(),
                    3 => vec![],
                    _ => [&b"exif\0\0"[..], &d[..]].concat(),
                };
                d.truncate(65533);
                note.push("app1-other");
            }
            0xe2 => d = [&b"ICC_PROFILE\0\x01\x01"[..], &d[..]].concat(),
            _ => (),
        }
        d.truncate(65533);
        segs.push((m, d));
    }
    let prog = r.chance(1, 3);
    let mut late = vec![];
    for e in &o.exif {
        let d = [&b"Exif\0\0"[..], &e[..]].concat();
        if prog && d.len() <= 65533 && r.chance(1, 8) {
            late.push(d);
            note.push("exif-between-scans");
            continue;
        }
        let at = r.below(segs.len() + 1);
        if d.len() <= 65533 {
            segs.insert(at, (0xe1, d));
            if segs[..at].iter().any(|s| s.0 == 0xe1) {
                note.push("exif-after-other-app1");
            }
            if at > 0 {
                note.push("exif-not-first");
            }
        }
    }
    if r.chance(2, 3) {
        segs.insert(0, (0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0".to_vec()));
    }
    if segs.last().map(|s| s.0 == 0xe1 && s.1.starts_with(b"Exif\0\0")).unwrap_or(false) && r.chance(1, 2) {
        // tables may come before the application segments
        let t = segs.pop().unwrap();
        segs.push((0xdb, r.bytes(65)));
        segs.push(t);
        note.push("exif-after-tables");
    }
    for (m, d) in &segs {
        seg(&mut out, *m, d, r, fill);
    }
    let dqt = r.bytes(65);
    seg(&mut out, 0xdb, &dqt, r, fill);
    let sof = vec![8, 0, 16, 0, 16, 3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1];
    seg(&mut out, if prog { 0xc2 } else { 0xc0 }, &sof, r, fill);
    if r.chance(1, 3) {
        seg(&mut out, 0xdd, &[0, 4], r, fill);
    }
    let dht = r.bytes(28);
    seg(&mut out, 0xc4, &dht, r, fill);
    let scans = if prog {
        note.push("progressive");
        r.range(2, 5)
    } else {
        1
    };
    for i in 0..scans {
        seg(&mut out, 0xda, &[1, 1, 0, 0, 63, 0], r, fill);
        let k = match r.below(6) {
            0 => 0,
            1 => r.below(o.bulk + 1),
            _ => r.below(200),
        };
        let ef = fill && r.chance(1, 2);
        ecs(r, &mut out, k, ef);
        if i + 1 < scans && r.chance(1, 2) {
            let m = *r.pick(&[0xc4u8, 0xfe, 0xec, 0xed, 0xdc]);
            let k = r.range(2, 30);
            let d = tricky(r, k);
            seg(&mut out, m, &d, r, fill);
        }
        if i + 1 < scans && (i + 2 == scans || r.chance(1, 2)) {
            for d in late.drain(..) {
                seg(&mut out, 0xe1, &d, r, fill);
            }
        }
    }
    if fill && r.chance(1, 3) {
        out.push(0xff);
    }
    out.extend([0xff, 0xd9]);
    if r.chance(1, 4) {
        let k = r.range(1, 80);
        let t = tricky(r, k);
        if r.chance(1, 3) {
            // further images, as the multi-picture format appends them
            for _ in 0..r.range(1, 4) {
                out.extend([0xff, 0xd8]);
                let e = [&b"Exif\0\0II*\0\x08\0\0\0\x01\0\x12\x01\x03\0\x01\0\0\0\x06\0\0\0\0\0\0\0"[..], &t[..t.len().min(9)]].concat();
                seg(&mut out, 0xe1, &e, r, false);
                out.extend([0xff, 0xda, 0, 2, 1, 2, 0xff, 0xd9]);
            }
            note.push("further-images");
        }
        out.extend(t);
        note.push("trailer");
    }
    Img { kind: Kind::Jpeg, bytes: out, note }
}
