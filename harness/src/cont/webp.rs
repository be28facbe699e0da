use super::*;

pub struct Chunk<'a> {
    pub id: [u8; 4],
    pub data: &'a [u8],
}
/// strict RIFF/WEBP chunk list
pub fn chunks(b: &[u8]) -> Result<Vec<Chunk<'_>>, String> {
    if b.len() < 12 || &b[..4] != b"RIFF" || &b[8..12] != b"WEBP" {
        return Err("no RIFF/WEBP header".into());
    }
    let n = le32(b, 4).unwrap() as usize;
    if n + 8 != b.len() {
        return Err(format!("RIFF size {} but the file has {} bytes", n, b.len()));
    }
    let mut o = 12;
    let mut v = vec![];
    while o < b.len() {
        let id: [u8; 4] = b.get(o..o + 4).ok_or("file ends inside a chunk id")?.try_into().unwrap();
        let n = le32(b, o + 4).ok_or("file ends inside a chunk size")? as usize;
        let d = b.get(o + 8..o + 8 + n).ok_or(format!("chunk {} of {} bytes runs past the end", String::from_utf8_lossy(&id), n))?;
        o += 8 + n;
        if n % 2 == 1 {
            match b.get(o) {
                Some(0) => o += 1,
                x => return Err(format!("padding of chunk {} is {:?}", String::from_utf8_lossy(&id), x)),
            }
        }
        v.push(Chunk { id, data: d });
    }
    Ok(v)
}
fn vp8_dim(d: &[u8]) -> Result<(u32, u32), String> {
    let h = d.get(..10).ok_or("VP8 chunk too short")?;
    if h[3..6] != [0x9d, 1, 0x2a] {
        return Err("VP8 start code missing".into());
    }
    Ok(((u16::from_le_bytes([h[6], h[7]]) & 0x3fff) as u32, (u16::from_le_bytes([h[8], h[9]]) & 0x3fff) as u32))
}
fn vp8l_dim(d: &[u8]) -> Result<(u32, u32, bool), String> {
    let h = d.get(..5).ok_or("VP8L chunk too short")?;
    if h[0] != 0x2f {
        return Err("VP8L signature missing".into());
    }
    let x = u32::from_le_bytes([h[1], h[2], h[3], h[4]]);
    Ok(((x & 0x3fff) + 1, ((x >> 14) & 0x3fff) + 1, x >> 28 & 1 == 1))
}
fn le24(b: &[u8]) -> u32 {
    b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16
}
const F_ICC: u8 = 0x20;
const F_ALPHA: u8 = 0x10;
const F_EXIF: u8 = 0x08;
const F_XMP: u8 = 0x04;
const F_ANIM: u8 = 0x02;

pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let cs = chunks(b)?;
    let mut p = Parsed::default();
    let first = cs.first().ok_or("no chunk at all")?;
    let has = |id: &[u8; 4]| cs.iter().any(|c| &c.id == id);
    match &first.id {
        b"VP8X" => {
            let d = first.data;
            if d.len() != 10 {
                return Err(format!("VP8X of {} bytes", d.len()));
            }
            if cs.iter().skip(1).any(|c| &c.id == b"VP8X") {
                return Err("two VP8X chunks".into());
            }
            let f = d[0];
            if f & 0xc1 != 0 || d[1..4] != [0, 0, 0] {
                return Err(format!("reserved VP8X bits set: {:02x?}", &d[..4]));
            }
            let flag = |bit: u8, ids: &[&[u8; 4]], n: &str| -> Result<(), String> {
                let want = ids.iter().any(|i| has(i));
                if (f & bit != 0) != want {
                    return Err(format!("VP8X flag {} is {} but such a chunk is {}", n, f & bit != 0, if want { "present" } else { "absent" }));
                }
                Ok(())
            };
            flag(F_ICC, &[b"ICCP"], "ICC")?;
            flag(F_EXIF, &[b"EXIF"], "EXIF")?;
            flag(F_XMP, &[b"XMP "], "XMP")?;
            flag(F_ANIM, &[b"ANIM"], "animation")?;
            let (w, h) = (le24(&d[4..]) + 1, le24(&d[7..]) + 1);
            if !has(b"ANIM") {
                let img = cs.iter().find(|c| &c.id == b"VP8 " || &c.id == b"VP8L").ok_or("no image data")?;
                let (iw, ih, a) = if &img.id == b"VP8 " {
                    let (w, h) = vp8_dim(img.data)?;
                    (w, h, has(b"ALPH"))
                } else {
                    vp8l_dim(img.data)?
                };
                if (iw, ih) != (w, h) {
                    return Err(format!("VP8X canvas {}x{} but the image is {}x{}", w, h, iw, ih));
                }
                if (f & F_ALPHA != 0) != a {
                    return Err(format!("VP8X alpha flag is {} but the image {} alpha", f & F_ALPHA != 0, if a { "has" } else { "has no" }));
                }
            }
        }
        b"VP8 " | b"VP8L" => {
            if &first.id == b"VP8 " {
                vp8_dim(first.data)?;
            } else {
                vp8l_dim(first.data)?;
            }
            if let Some(c) = cs.iter().find(|c| [b"EXIF", b"ICCP", b"XMP ", b"ANIM", b"ALPH"].contains(&&c.id)) {
                return Err(format!("{} chunk in a simple file without VP8X", String::from_utf8_lossy(&c.id)));
            }
        }
        x => return Err(format!("first chunk is {}", String::from_utf8_lossy(x))),
    }
    for c in &cs {
        match &c.id {
            b"EXIF" => p.carriers.push(strip_prefix(c.data).to_vec()),
            b"VP8X" => {
                let mut d = c.data.to_vec();
                d[0] &= !F_EXIF;
                p.part("VP8X", &d);
            }
            id => p.part(String::from_utf8_lossy(id).to_string(), c.data),
        }
    }
    Ok(p)
}
pub fn put(out: &mut Vec<u8>, id: &[u8], d: &[u8]) {
    out.extend(id);
    out.extend((d.len() as u32).to_le_bytes());
    out.extend(d);
    if d.len() % 2 == 1 {
        out.push(0);
    }
}
fn vp8(r: &mut Rng, w: u32, h: u32, n: usize) -> Vec<u8> {
    let mut d = vec![r.u8() & 0xfe, r.u8(), r.u8(), 0x9d, 1, 0x2a];
    // the two top bits are the scaling hints
    d.extend((w as u16 | (r.below(4) as u16) << 14).to_le_bytes());
    d.extend((h as u16 | (r.below(4) as u16) << 14).to_le_bytes());
    d.extend(r.bytes(n));
    d
}
fn vp8l(r: &mut Rng, w: u32, h: u32, alpha: bool, n: usize) -> Vec<u8> {
    let mut d = vec![0x2f];
    d.extend(((w - 1) | (h - 1) << 14 | (alpha as u32) << 28).to_le_bytes());
    d.extend(r.bytes(n));
    d
}
fn dim(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 1,
        1 => 16383,
        2 => 256,
        3 => *r.pick(&[255u32, 257, 4096, 8192, 16382, 64]),
        _ => 1 + r.below(16383) as u32,
    }
}
pub fn gen(r: &mut Rng, o: &Opts) -> Img {
    let mut note = vec![];
    let (w, h) = (dim(r), dim(r));
    let n = match r.below(5) {
        0 => r.below(o.bulk + 1),
        _ => r.below(200),
    };
    let mut body = vec![];
    let simple = o.exif.is_empty() && r.chance(1, 3);
    if simple {
        if r.chance(1, 2) {
            note.push("simple-lossy");
            let d = vp8(r, w, h, n);
            put(&mut body, b"VP8 ", &d);
        } else {
            note.push("simple-lossless");
            let a = r.chance(1, 2);
            let (w, h) = if r.chance(1, 6) { (*r.pick(&[w, 16384]), 16384) } else { (w, h) };
            let d = vp8l(r, w, h, a, n);
            put(&mut body, b"VP8L", &d);
        }
        if r.chance(1, 8) {
            note.push("unknown-chunk");
            let k = r.below(20);
            let d = r.bytes(k);
            put(&mut body, b"abcd", &d);
        }
    } else {
        note.push("extended");
        let mut f = 0u8;
        let mut cs: Vec<([u8; 4], Vec<u8>)> = vec![];
        if r.chance(1, 3) {
            f |= F_ICC;
            let k = r.range(1, 90);
            cs.push((*b"ICCP", r.bytes(k)));
        }
        match r.below(5) {
            0 => {
                note.push("animated");
                f |= F_ANIM;
                cs.push((*b"ANIM", r.bytes(6)));
                for _ in 0..r.range(1, 3) {
                    let mut d = r.bytes(16);
                    let mut sub = vec![];
                    let img = vp8l(r, 8, 8, false, 20);
                    put(&mut sub, b"VP8L", &img);
                    d.extend(sub);
                    cs.push((*b"ANMF", d));
                }
                if r.chance(1, 2) {
                    f |= F_ALPHA;
                }
            }
            1 => {
                f |= F_ALPHA;
                let k = r.range(1, 50);
                cs.push((*b"ALPH", r.bytes(k)));
                let d = vp8(r, w, h, n);
                cs.push((*b"VP8 ", d));
            }
            2 => cs.push((*b"VP8 ", vp8(r, w, h, n))),
            _ => {
                let a = r.chance(1, 2);
                if a {
                    f |= F_ALPHA;
                }
                cs.push((*b"VP8L", vp8l(r, w, h, a, n)));
            }
        }
        for e in &o.exif {
            f |= F_EXIF;
            let d = if r.chance(1, 3) {
                note.push("exif-with-prefix");
                [&b"Exif\0\0"[..], &e[..]].concat()
            } else {
                e.clone()
            };
            let at = if r.chance(3, 4) {
                cs.len()
            } else {
                note.push("exif-before-image");
                r.below(cs.len() + 1)
            };
            cs.insert(at, (*b"EXIF", d));
        }
        if r.chance(1, 3) {
            f |= F_XMP;
            let k = r.below(90);
            let at = if r.chance(3, 4) { cs.len() } else { r.below(cs.len() + 1) };
            let d = super::jpeg::tricky(r, k);
            cs.insert(at, (*b"XMP ", d));
        }
        for _ in 0..r.below(3) {
            note.push("unknown-chunk");
            let k = if r.chance(1, 6) { r.below(o.bulk + 1) } else { r.below(40) };
            let at = if r.chance(2, 3) { cs.len() } else { r.below(cs.len() + 1) };
            let id = *r.pick(&[b"abcd", b"FLLR", b"exif", b"EXI ", b"Exif", b"VP8x", b"ab\0\0", &[0xc3, 0xa4, b'x', b'y']]);
            let d = r.bytes(k);
            cs.insert(at, (*id, d));
        }
        let mut x = vec![f, 0, 0, 0];
        x.extend(&(w - 1).to_le_bytes()[..3]);
        x.extend(&(h - 1).to_le_bytes()[..3]);
        put(&mut body, b"VP8X", &x);
        for (id, d) in &cs {
            put(&mut body, id, d);
        }
    }
    let mut out = b"RIFF".to_vec();
    out.extend((body.len() as u32 + 4).to_le_bytes());
    out.extend(b"WEBP");
    out.extend(body);
    Img { kind: Kind::Webp, bytes: out, note }
}
