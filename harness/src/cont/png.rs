use super::*;

pub const SIG: [u8; 8] = [0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a];

pub fn crc32(parts: &[&[u8]]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for n in 0..256u32 {
            let mut c = n;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[n as usize] = c;
        }
        t
    });
    let mut c = 0xffff_ffffu32;
    for p in parts {
        for b in *p {
            c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
        }
    }
    !c
}
pub fn put(out: &mut Vec<u8>, ty: &[u8], d: &[u8]) {
    out.extend((d.len() as u32).to_be_bytes());
    out.extend(ty);
    out.extend(d);
    out.extend(crc32(&[ty, d]).to_be_bytes());
}
pub struct Text {
    pub keyword: Vec<u8>,
    /// fields between keyword and text, verbatim (compression flag, method, language, ...)
    pub fields: Vec<u8>,
    pub text: Vec<u8>,
}
/// strict decoding of the three textual chunk types
pub fn text(ty: &[u8], d: &[u8]) -> Result<Text, String> {
    let k = d.iter().position(|c| *c == 0).ok_or("textual chunk without keyword terminator")?;
    if k == 0 || k > 79 {
        return Err(format!("textual chunk keyword of length {}", k));
    }
    let keyword = d[..k].to_vec();
    let rest = &d[k + 1..];
    let inflate = |z: &[u8]| miniz_oxide::inflate::decompress_to_vec_zlib(z).map_err(|_| "textual chunk does not inflate".to_string());
    match ty {
        b"tEXt" => Ok(Text { keyword, fields: vec![], text: rest.to_vec() }),
        b"zTXt" => {
            if rest.first() != Some(&0) {
                return Err(format!("zTXt compression method {:?}", rest.first()));
            }
            Ok(Text { keyword, fields: vec![0], text: inflate(&rest[1..])? })
        }
        _ => {
            let (f, m) = (*rest.first().ok_or("iTXt too short")?, *rest.get(1).ok_or("iTXt too short")?);
            let r2 = &rest[2..];
            let l = r2.iter().position(|c| *c == 0).ok_or("iTXt without language terminator")?;
            let r3 = &r2[l + 1..];
            let t = r3.iter().position(|c| *c == 0).ok_or("iTXt without translated keyword terminator")?;
            let body = &r3[t + 1..];
            let fields = rest[..2 + l + 1 + t + 1].to_vec();
            match (f, m) {
                (0, _) => Ok(Text { keyword, fields, text: body.to_vec() }),
                (1, 0) => Ok(Text { keyword, fields, text: inflate(body)? }),
                x => Err(format!("iTXt compression flag/method {:?}", x)),
            }
        }
    }
}
/// independent decoding of a "Raw profile type exif" text
pub fn raw_profile(t: &[u8]) -> Result<Vec<u8>, String> {
    let s = std::str::from_utf8(t).map_err(|_| "raw profile is not text")?;
    let s = s.strip_prefix('\n').ok_or("raw profile does not start with a newline")?;
    let (name, s) = s.split_once('\n').ok_or("raw profile without name line")?;
    if name != "exif" {
        return Err(format!("raw profile name {:?}", name));
    }
    let (len, s) = s.split_once('\n').ok_or("raw profile without length line")?;
    let n: usize = len.trim_start().parse().map_err(|_| format!("raw profile length {:?}", len))?;
    let h: Vec<u8> = s.bytes().filter(|c| *c != b'\n').collect();
    if h.len() % 2 != 0 {
        return Err("raw profile with an odd number of hex digits".into());
    }
    let mut v = vec![];
    for c in h.chunks(2) {
        let x = |c: u8| (c as char).to_digit(16).ok_or("raw profile with a non-hex digit".to_string());
        v.push((x(c[0])? * 16 + x(c[1])?) as u8);
    }
    if v.len() != n {
        return Err(format!("raw profile announces {} bytes but holds {}", n, v.len()));
    }
    Ok(v)
}
pub struct Chunk<'a> {
    pub ty: &'a [u8],
    pub data: &'a [u8],
}
pub fn chunks(b: &[u8]) -> Result<(Vec<Chunk<'_>>, &[u8]), String> {
    if !b.starts_with(&SIG) {
        return Err("no PNG signature".into());
    }
    let mut o = 8;
    let mut v = vec![];
    loop {
        let n = be32(b, o).ok_or(format!("file ends at {} without IEND", b.len()))? as usize;
        let ty = b.get(o + 4..o + 8).ok_or("file ends in a chunk type")?;
        if !ty.iter().all(|c| c.is_ascii_alphabetic()) {
            return Err(format!("chunk type {:02x?} at {}", ty, o));
        }
        let d = b.get(o + 8..o + 8 + n).ok_or(format!("chunk {} of {} bytes at {} runs past the end", String::from_utf8_lossy(ty), n, o))?;
        let c = be32(b, o + 8 + n).ok_or("file ends in a checksum")?;
        if c != crc32(&[ty, d]) {
            return Err(format!("wrong checksum of chunk {}", String::from_utf8_lossy(ty)));
        }
        o += 12 + n;
        v.push(Chunk { ty, data: d });
        if ty == b"IEND" {
            return Ok((v, &b[o..]));
        }
    }
}
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let (cs, trailer) = chunks(b)?;
    let mut p = Parsed::default();
    let mut idat = 0; // 0 none, 1 in run, 2 after
    for (i, c) in cs.iter().enumerate() {
        let n = String::from_utf8_lossy(c.ty).to_string();
        if (i == 0) != (c.ty == b"IHDR") {
            return Err(format!("chunk {} is {}", i, n));
        }
        if c.ty == b"IHDR" && c.data.len() != 13 {
            return Err("IHDR of wrong length".into());
        }
        if c.ty == b"IEND" && !c.data.is_empty() {
            return Err("IEND with data".into());
        }
        if c.ty == b"IDAT" {
            if idat == 2 {
                return Err("IDAT chunks not consecutive".into());
            }
            idat = 1;
        } else if idat == 1 {
            idat = 2;
        }
        match c.ty {
            b"eXIf" => {
                p.carriers.push(strip_prefix(c.data).to_vec());
                continue;
            }
            b"tEXt" | b"zTXt" | b"iTXt" => {
                let t = text(c.ty, c.data);
                let kw = c.data.split(|x| *x == 0).next().unwrap_or(&[]);
                if kw == b"Raw profile type exif" {
                    let t = t?;
                    let v = raw_profile(&t.text)?;
                    p.carriers.push(strip_prefix(&v).to_vec());
                    continue;
                }
                if kw == b"XML:com.adobe.xmp" {
                    p.part(format!("{}-xmp", n), c.data);
                    continue;
                }
                if let Err(e) = t {
                    return Err(format!("{}: {}", n, e));
                }
                p.part(n, c.data);
            }
            _ => p.part(n, c.data),
        }
    }
    if idat == 0 {
        return Err("no IDAT chunk".into());
    }
    if !trailer.is_empty() {
        p.part("trailer", trailer);
    }
    Ok(p)
}

fn z(d: &[u8], r: &mut Rng) -> Vec<u8> {
    miniz_oxide::deflate::compress_to_vec_zlib(d, r.below(10) as u8)
}
pub fn encode_profile(r: &mut Rng, e: &[u8], note: &mut Vec<&'static str>) -> Vec<u8> {
    // as ImageMagick, exiftool and similar writers do
    let prefix = r.chance(3, 4);
    let mut d = if prefix { b"Exif\0\0".to_vec() } else { vec![] };
    if !prefix {
        note.push("profile-without-prefix");
    }
    d.extend(e);
    let mut t = format!("\nexif\n{:8}\n", d.len()).into_bytes();
    let wrap = r.chance(2, 3);
    let upper = r.chance(1, 8);
    for (i, b) in d.iter().enumerate() {
        let h = if upper { format!("{:02X}", b) } else { format!("{:02x}", b) };
        t.extend(h.bytes());
        if wrap && i % 36 == 35 {
            t.push(b'\n');
        }
    }
    if t.last() != Some(&b'\n') || r.chance(1, 2) {
        t.push(b'\n');
    }
    t
}
pub fn text_chunk(r: &mut Rng, kw: &[u8], text: &[u8]) -> (&'static [u8], Vec<u8>) {
    let mut d = kw.to_vec();
    d.push(0);
    match r.below(4) {
        0 => {
            d.extend(text);
            (b"tEXt", d)
        }
        1 => {
            d.push(0);
            d.extend(z(text, r));
            (b"zTXt", d)
        }
        k => {
            let c = k == 3;
            d.push(c as u8);
            d.push(0);
            d.extend(*r.pick(&[&b""[..], b"en", b"de-DE", b"x-klingon"]));
            d.push(0);
            d.extend(*r.pick(&[&b""[..], b"Titel", "Ü-Wort".as_bytes()]));
            d.push(0);
            if c {
                d.extend(z(text, r));
            } else {
                d.extend(text);
            }
            (b"iTXt", d)
        }
    }
}
pub fn gen(r: &mut Rng, o: &Opts) -> Img {
    let mut note = vec![];
    let mut pre: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut post: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let n = r.below(7);
    for _ in 0..n {
        let k = match r.below(8) {
            0 => 0,
            1 => r.below(o.bulk + 1),
            _ => r.below(80),
        };
        let (ty, d): (Vec<u8>, Vec<u8>) = match r.below(10) {
            0 => (b"gAMA".to_vec(), r.bytes(4)),
            1 => (b"pHYs".to_vec(), r.bytes(9)),
            2 => (b"tIME".to_vec(), r.bytes(7)),
            3 => (vec![*r.pick(b"abcz"), *r.pick(b"abCZ"), *r.pick(b"ABCZ"), *r.pick(b"abcZ")], r.bytes(k)),
            4 => {
                let p = r.bytes(k);
                let mut d = b"icc\0\0".to_vec();
                d.extend(z(&p, r));
                (b"iCCP".to_vec(), d)
            }
            5 | 6 | 7 => {
                let kw = *r.pick(&[&b"Comment"[..], b"Title", b"Raw profile type iptc", b"Raw profile type xmp", b"Raw profile type exi", b"Raw profile type exifs", b"XML:com.adobe.xm", b"a", &[b'k'; 79], b"K\xe4se", b"exif"]);
                let t = crate::gen::rand_text(r, k);
                let (ty, d) = text_chunk(r, kw, &t);
                note.push("text");
                (ty.to_vec(), d)
            }
            _ => {
                let x = xml::gen_packet(r, k);
                let (ty, d) = text_chunk(r, b"XML:com.adobe.xmp", &x);
                note.push("xmp");
                (ty.to_vec(), d)
            }
        };
        if r.chance(1, 3) && ty != b"iCCP" && ty != b"gAMA" && ty != b"pHYs" {
            post.push((ty, d));
        } else {
            pre.push((ty, d));
        }
    }
    for e in &o.exif {
        let c = if r.chance(1, 2) {
            note.push("eXIf");
            (b"eXIf".to_vec(), e.clone())
        } else {
            note.push("raw-profile");
            let t = encode_profile(r, e, &mut note);
            let (ty, d) = text_chunk(r, b"Raw profile type exif", &t);
            (ty.to_vec(), d)
        };
        if r.chance(1, 2) {
            let at = r.below(pre.len() + 1);
            pre.insert(at, c);
        } else {
            let at = r.below(post.len() + 1);
            post.insert(at, c);
            note.push("exif-after-idat");
        }
    }
    let mut out = SIG.to_vec();
    let mut ihdr = vec![0, 0, 0, 4, 0, 0, 0, 5, 8];
    ihdr.extend([*r.pick(&[0u8, 2, 3, 6]), 0, 0, r.below(2) as u8]);
    put(&mut out, b"IHDR", &ihdr);
    for (t, d) in &pre {
        put(&mut out, t, d);
    }
    if r.chance(1, 3) {
        let p = r.bytes(12);
        put(&mut out, b"PLTE", &p);
    }
    for _ in 0..r.range(1, 3) {
        let k = if r.chance(1, 5) { r.below(o.bulk + 1) } else { r.below(100) };
        let d = r.bytes(k);
        put(&mut out, b"IDAT", &d);
    }
    for (t, d) in &post {
        put(&mut out, t, d);
    }
    put(&mut out, b"IEND", &[]);
    if r.chance(1, 8) {
        let k = r.range(1, 60);
        let t = r.bytes(k);
        out.extend(t);
        note.push("trailer");
    }
    Img { kind: Kind::Png, bytes: out, note }
}
