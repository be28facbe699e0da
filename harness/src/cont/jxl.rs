use super::*;

pub const SIG: [u8; 12] = [0, 0, 0, 0x0c, b'J', b'X', b'L', b' ', 0x0d, 0x0a, 0x87, 0x0a];

pub struct Bx<'a> {
    pub ty: [u8; 4],
    pub data: &'a [u8],
    /// size written as 0 (to the end of the file)
    pub open: bool,
    pub at: usize,
    pub end: usize,
}
/// strict ISO BMFF box list of the given bytes
pub fn boxes(b: &[u8]) -> Result<Vec<Bx<'_>>, String> {
    let mut o = 0;
    let mut v = vec![];
    while o < b.len() {
        let n = be32(b, o).ok_or(format!("data ends inside the box header at {}", o))? as u64;
        let ty: [u8; 4] = b.get(o + 4..o + 8).ok_or("data ends inside a box type")?.try_into().unwrap();
        let (h, end) = match n {
            0 => (8, b.len()),
            1 => {
                let s = b.get(o + 8..o + 16).ok_or("data ends inside a large box size")?;
                let l = u64::from_be_bytes(s.try_into().unwrap());
                if l < 16 || l > (b.len() - o) as u64 {
                    return Err(format!("box {} at {} has large size {}, {} bytes are left", String::from_utf8_lossy(&ty), o, l, b.len() - o));
                }
                (16, o + l as usize)
            }
            n => {
                if n < 8 || n > (b.len() - o) as u64 {
                    return Err(format!("box {} at {} has size {}, {} bytes are left", String::from_utf8_lossy(&ty), o, n, b.len() - o));
                }
                (8, o + n as usize)
            }
        };
        v.push(Bx { ty, data: &b[o + h..end], open: n == 0, at: o, end });
        o = end;
    }
    Ok(v)
}
fn exif_payload(d: &[u8]) -> Result<Vec<u8>, String> {
    let off = be32(d, 0).ok_or("Exif box without offset field")? as usize;
    let t = d.get(4 + off..).ok_or(format!("Exif box offset {} outside the box", off))?;
    Ok(strip_prefix(t).to_vec())
}
pub fn unbrotli(d: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut v = vec![];
    brotli::Decompressor::new(d, 4096).take(64 << 20).read_to_end(&mut v).map_err(|e| format!("brob does not decompress: {}", e))?;
    Ok(v)
}
pub fn brotli_of(d: &[u8], q: u32) -> Vec<u8> {
    use std::io::Write;
    let mut v = vec![];
    {
        let mut w = brotli::CompressorWriter::new(&mut v, 4096, q, 20);
        w.write_all(d).unwrap();
    }
    v
}
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    if b.starts_with(&[0xff, 0x0a]) {
        p.part("codestream", b);
        return Ok(p);
    }
    if !b.starts_with(&SIG) {
        return Err("neither a JXL codestream nor a JXL container".into());
    }
    let bs = boxes(b)?;
    if bs.get(1).map(|x| &x.ty) != Some(b"ftyp") {
        return Err("the second box is not ftyp".into());
    }
    if bs[1].data.len() < 8 || &bs[1].data[..4] != b"jxl " {
        return Err(format!("ftyp content {:02x?}", bs[1].data));
    }
    // ISO/IEC 18181-2: version 0 and "jxl " among the compatible brands.
    if bs[1].data[4..8] != [0; 4] || !bs[1].data[8..].chunks(4).any(|c| c == b"jxl ") {
        return Err(format!("ftyp content {:02x?}", bs[1].data));
    }
    let mut code = 0;
    for x in &bs[1..] {
        let n = String::from_utf8_lossy(&x.ty).to_string();
        match &x.ty {
            b"JXL " => return Err("second signature box".into()),
            b"Exif" => {
                p.carriers.push(exif_payload(x.data)?);
                continue;
            }
            b"brob" => {
                let t = x.data.get(..4).ok_or("brob without type")?;
                if t == b"Exif" {
                    p.carriers.push(exif_payload(&unbrotli(&x.data[4..])?)?);
                    continue;
                }
                p.part("brob", x.data);
            }
            b"jxlc" => {
                code += 1;
                p.part("codestream", x.data);
            }
            b"jxlp" => {
                code += 1;
                p.part("jxlp", x.data);
            }
            _ => p.part(n, x.data),
        }
    }
    if code == 0 {
        return Err("no codestream box".into());
    }
    Ok(p)
}
pub fn put(out: &mut Vec<u8>, ty: &[u8], d: &[u8], large: bool) {
    if large {
        out.extend(1u32.to_be_bytes());
        out.extend(ty);
        out.extend((d.len() as u64 + 16).to_be_bytes());
    } else {
        out.extend((d.len() as u32 + 8).to_be_bytes());
        out.extend(ty);
    }
    out.extend(d);
}
pub fn exif_box(r: &mut Rng, e: &[u8], note: &mut Vec<&'static str>) -> Vec<u8> {
    match r.below(5) {
        0 | 1 => {
            note.push("exif-offset-0");
            [&[0u8; 4][..], e].concat()
        }
        2 | 3 => {
            note.push("exif-offset-6");
            [&[0u8, 0, 0, 6][..], b"Exif\0\0", e].concat()
        }
        _ => {
            note.push("exif-offset-other");
            let k = if r.chance(1, 8) { r.range(200, 700) } else { r.range(1, 12) };
            let mut pad = r.bytes(k);
            if pad.starts_with(b"II") || pad.starts_with(b"MM") {
                pad[0] = 0;
            }
            [&(k as u32).to_be_bytes()[..], &pad, e].concat()
        }
    }
}
pub fn gen(r: &mut Rng, o: &Opts) -> Img {
    let mut note = vec![];
    let n = match r.below(6) {
        0 => r.below(o.bulk + 1),
        1 => r.below(3),
        _ => r.below(200),
    };
    let mut code = vec![0xff, 0x0a];
    code.extend(super::jpeg::tricky(r, n));
    if o.exif.is_empty() && r.chance(1, 3) {
        note.push("naked");
        return Img { kind: Kind::Jxl, bytes: code, note };
    }
    note.push("container");
    let mut out = SIG.to_vec();
    put(&mut out, b"ftyp", if r.chance(1, 4) { b"jxl \0\0\0\0jxl jxll" } else { b"jxl \0\0\0\0jxl " }, false);
    let mut bs: Vec<([u8; 4], Vec<u8>)> = vec![];
    if r.chance(1, 2) {
        bs.push((*b"jxll", vec![*r.pick(&[5u8, 10])]));
    }
    let mut meta: Vec<([u8; 4], Vec<u8>)> = vec![];
    for _ in 0..r.below(4) {
        let k = r.below(60);
        meta.push(match r.below(6) {
            0 => (*b"xml ", r.bytes(k)),
            1 => (*b"jumb", r.bytes(k)),
            2 => {
                note.push("brob-other");
                let d = r.bytes(k);
                let z = brotli_of(&d, 5);
                (*b"brob", [&r.pick(&[b"xml ", b"jumb", b"exif", b"EXIF"])[..], &z[..]].concat())
            }
            3 => (*b"jbrd", r.bytes(k)),
            4 => (*b"abcd", super::jpeg::tricky(r, k)),
            _ => (*b"exif", [&[0u8; 4][..], b"II*\0"].concat()),
        });
    }
    for e in &o.exif {
        let d = exif_box(r, e, &mut note);
        if r.chance(1, 3) {
            note.push("brob-exif");
            let z = brotli_of(&d, r.below(10) as u32);
            meta.push((*b"brob", [&b"Exif"[..], &z[..]].concat()));
        } else {
            meta.push((*b"Exif", d));
        }
    }
    r.shuffle(&mut meta);
    let cut = r.below(meta.len() + 1);
    let tail = meta.split_off(cut);
    bs.extend(meta);
    let parts = if r.chance(1, 3) {
        note.push("jxlp");
        r.range(2, 4)
    } else {
        0
    };
    if parts == 0 {
        bs.push((*b"jxlc", code));
        bs.extend(tail);
    } else {
        let mut tail = tail;
        let mut rest = code;
        for i in 0..parts {
            let last = i + 1 == parts;
            let k = if last { rest.len() } else { r.below(rest.len() + 1) };
            let tailcode = rest.split_off(k);
            let idx = i as u32 | if last { 0x8000_0000 } else { 0 };
            bs.push((*b"jxlp", [&idx.to_be_bytes()[..], &rest[..]].concat()));
            rest = tailcode;
            if !tail.is_empty() && r.chance(1, 2) {
                note.push("meta-between-jxlp");
                bs.push(tail.remove(0));
            }
        }
        bs.extend(tail);
    }
    for i in 0..bs.len() {
        let (t, d) = &bs[i];
        if i + 1 == bs.len() && r.chance(1, 4) {
            note.push("last-box-size-0");
            out.extend(0u32.to_be_bytes());
            out.extend(t);
            out.extend(d);
        } else {
            let large = r.chance(1, 12);
            if large {
                note.push("largesize");
            }
            put(&mut out, t, d, large);
        }
    }
    Img { kind: Kind::Jxl, bytes: out, note }
}
