//! Hostile inputs: structure-aware and blind corruption of well-formed images,
//! and hostile metadata objects.
use crate::cont::{self, Img, Kind, Opts};
use crate::exif::*;
use crate::gen::*;
use crate::props::image::{pick_kind, samples};
use crate::rng::Rng;
use little_exif::exif_tag::ExifTag;
use little_exif::ifd::ExifTagGroup;
use little_exif::metadata::Metadata;

fn interesting(r: &mut Rng, len: usize) -> u64 {
    match r.below(14) {
        0 => 0,
        1 => r.range(1, 9) as u64,
        2 => r.below(64) as u64,
        3 => len as u64,
        4 => (len as u64).wrapping_add(r.range(0, 16) as u64).wrapping_sub(8),
        5 => 0xffff_ffff,
        6 => 0xffff_fff0 + r.below(16) as u64,
        7 => 0x7fff_ffff,
        8 => 0x8000_0000,
        9 => u64::MAX,
        10 => u64::MAX - r.below(32) as u64,
        11 => 1 << r.below(64),
        12 => r.below(len.max(1)) as u64,
        _ => r.u64(),
    }
}
/// positions worth attacking: length fields next to four-character codes, JPEG markers, and the file's start
fn hot(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 0;
    while p + 4 <= b.len() {
        if b[p..p + 4].iter().all(|c| c.is_ascii_alphanumeric() || *c == b' ') {
            v.push(p);
        } else if b[p] == 0xff && b[p + 1] >= 0xc0 {
            v.push(p + 2);
        } else if &b[p..p + 4] == b"II*\0" || &b[p..p + 4] == b"MM\0*" {
            for k in 0..12 {
                v.push(p + 4 + k * 4);
            }
        }
        p += 1;
        if v.len() > 4000 {
            break;
        }
    }
    v
}
fn put(b: &mut [u8], p: usize, v: u64, w: usize, be: bool) {
    let x = v.to_le_bytes();
    for i in 0..w {
        let k = if be { w - 1 - i } else { i };
        if let Some(d) = b.get_mut(p + i) {
            *d = x[k];
        }
    }
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, n: usize) {
    let hot = hot(b);
    for _ in 0..n {
        if b.is_empty() {
            let k = r.range(1, 16);
            b.extend(r.bytes(k));
        }
        let len = b.len();
        let mut p = match r.below(10) {
            0..=4 if !hot.is_empty() => (*r.pick(&hot) + r.below(28)).saturating_sub(8).min(len - 1),
            5..=6 => r.below(len.min(64)),
            7 => len - 1 - r.below(len.min(32)),
            _ => r.below(len),
        };
        match r.below(15) {
            0 => b[p] ^= 1 << r.below(8),
            1 => b[p] = r.u8(),
            2 => b[p] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe, 2, 3, 4, 5, 6, 7, 8, 10, 12]),
            3 | 4 => {
                let v = interesting(r, len);
                let be = r.chance(1, 2);
                put(b, p, v, 4, be);
            }
            5 => {
                let v = interesting(r, len);
                let be = r.chance(1, 2);
                put(b, p, v, 2, be);
            }
            6 => {
                let v = interesting(r, len);
                put(b, p, v, 8, true);
            }
            7 => {
                // adjust an existing number by a little
                let w = *r.pick(&[1usize, 2, 4]);
                let be = r.chance(1, 2);
                if p + w <= len {
                    let mut v = 0u64;
                    for i in 0..w {
                        let k = if be { i } else { w - 1 - i };
                        v = v << 8 | b[p + k] as u64;
                    }
                    let d = r.range(0, 16) as u64;
                    put(b, p, v.wrapping_add(d).wrapping_sub(8), w, be);
                }
            }
            8 => {
                let k = r.range(1, 40);
                let ins = r.bytes(k);
                b.splice(p..p, ins);
            }
            9 => {
                let e = (p + r.range(1, 40)).min(len);
                b.drain(p..e);
            }
            10 => b.truncate(p),
            11 => {
                // duplicate a region elsewhere
                let e = (p + r.range(1, 200)).min(len);
                let s = b[p..e].to_vec();
                let q = r.below(len);
                b.splice(q..q, s);
            }
            12 => {
                // zero or fill a region
                let e = (p + r.range(1, 64)).min(len);
                let v = *r.pick(&[0u8, 0xff, 0x20]);
                b[p..e].iter_mut().for_each(|x| *x = v);
            }
            13 => {
                let k = r.range(1, 64);
                b.extend(r.bytes(k));
            }
            _ => {
                // move a region
                let e = (p + r.range(1, 100)).min(len);
                let s: Vec<u8> = b.drain(p..e).collect();
                p = r.below(b.len() + 1);
                b.splice(p..p, s);
            }
        }
    }
}
/// recompute the checksums of a PNG so that corruption inside chunks gets past them
pub fn fix_png(b: &mut [u8]) {
    let mut p = 8;
    while let Some(n) = cont::be32(b, p) {
        let n = n as usize;
        if p + 12 + n > b.len() {
            break;
        }
        let c = cont::png::crc32(&[&b[p + 4..p + 8 + n]]);
        b[p + 8 + n..p + 12 + n].copy_from_slice(&c.to_be_bytes());
        p += 12 + n;
    }
}
fn fix_riff(b: &mut [u8]) {
    if b.len() >= 8 {
        let n = (b.len() - 8) as u32;
        b[4..8].copy_from_slice(&n.to_le_bytes());
    }
}
/// many references to the same large region: memory use must stay in proportion
pub fn amplifier(r: &mut Rng) -> Vec<u8> {
    let be = r.chance(1, 2);
    let mut b = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    b.extend([0; 4]);
    put(&mut b, 4, 8, 4, be);
    let n = r.range(500, 3500);
    let region = r.range(10_000, 60_000);
    let mode = r.below(4);
    let base = 8 + 2 + 12 * n + 4;
    match mode {
        0 | 1 => {
            b.extend([0; 2]);
            put(&mut b, 8, n as u64, 2, be);
            for i in 0..n {
                let p = b.len();
                b.extend([0u8; 12]);
                put(&mut b, p, 0x5000 + i as u64, 2, be);
                put(&mut b, p + 2, if mode == 0 { 7 } else { 1 }, 2, be);
                put(&mut b, p + 4, region as u64, 4, be);
                put(&mut b, p + 8, (base + r.below(8)) as u64, 4, be);
            }
            b.extend([0; 4]);
            b.extend(vec![0x41; region + 16]);
        }
        2 => {
            // strips that all alias the same region
            b.extend([0; 2]);
            put(&mut b, 8, 2, 2, be);
            for (t, o) in [(0x0111u64, 38usize), (0x0117, 38 + 4 * n)] {
                let p = b.len();
                b.extend([0u8; 12]);
                put(&mut b, p, t, 2, be);
                put(&mut b, p + 2, 4, 2, be);
                put(&mut b, p + 4, n as u64, 4, be);
                put(&mut b, p + 8, o as u64, 4, be);
            }
            b.extend([0; 4]);
            let data = 38 + 8 * n;
            for v in [data, region] {
                for _ in 0..n {
                    let p = b.len();
                    b.extend([0; 4]);
                    put(&mut b, p, v as u64, 4, be);
                }
            }
            b.extend(vec![0x42; region]);
        }
        _ => {
            // a long chain of directories that share their values
            for i in 0..n {
                let p = b.len();
                b.extend([0u8; 18]);
                put(&mut b, p, 1, 2, be);
                put(&mut b, p + 2, 0x010e, 2, be);
                put(&mut b, p + 4, 2, 2, be);
                put(&mut b, p + 6, region as u64, 4, be);
                put(&mut b, p + 10, (8 + 18 * n) as u64, 4, be);
                put(&mut b, p + 14, if i + 1 < n { (p + 18) as u64 } else { 0 }, 4, be);
            }
            b.extend(vec![0x43; region]);
        }
    }
    b
}
pub fn hostile_block(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(8) {
        0 => {
            let k = r.below(64);
            r.bytes(k)
        }
        1 => {
            // pure directory chaos: a header and random entries with legal formats
            let be = r.chance(1, 2);
            let mut b = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
            b.extend([0; 4]);
            put(&mut b, 4, 8, 4, be);
            let n = r.range(1, 12);
            b.extend([0; 2]);
            put(&mut b, 8, n as u64, 2, be);
            for _ in 0..n {
                let p = b.len();
                b.extend([0u8; 12]);
                let t = match r.below(8) {
                    0 => 0x8769,
                    1 => 0x8825,
                    2 => 0xa005,
                    3 => 0x0111,
                    4 => 0x0117,
                    5 => 0x0201,
                    6 => 0x0202,
                    _ => r.pick(all_known()).1,
                };
                put(&mut b, p, t as u64, 2, be);
                let f = if r.chance(1, 8) { r.below(20) } else { r.range(1, 12) };
                put(&mut b, p + 2, f as u64, 2, be);
                let c = if r.chance(1, 2) { r.below(6) as u64 } else { interesting(r, 200) };
                put(&mut b, p + 4, c, 4, be);
                let o = if r.chance(1, 2) { r.below(200) as u64 } else { interesting(r, 200) };
                put(&mut b, p + 8, o, 4, be);
            }
            let k = r.below(120);
            b.extend(r.bytes(k));
            return b;
        }
        2 => {
            let o = ForeignOpts { exceptions: true, max_tags: 8, pages: r.range(1, 3), strips: r.chance(1, 2), text_terminated: false };
            let t = gen_foreign(r, &o);
            let l = Layout::random(r);
            write_foreign(&t, &l, r)
        }
        _ => small_block(r),
    };
    let n = r.below(5);
    mutate(r, &mut b, n);
    b
}
/// a corrupted image; `note` keeps the ancestry
pub fn hostile_image(r: &mut Rng) -> Img {
    let k = pick_kind(r, true);
    let mut img = if r.chance(1, 12) {
        let s = r.pick(samples());
        Img { kind: s.kind, bytes: s.bytes.clone(), note: vec!["sample"] }
    } else {
        let n = r.below(3);
        let bl: Vec<Vec<u8>> = (0..n).map(|_| if r.chance(1, 2) && k != Kind::Tiff { hostile_block(r) } else { small_block(r) }).collect();
        if k == Kind::Tiff && r.chance(1, 2) {
            let b = if r.chance(1, 100) { amplifier(r) } else { hostile_block(r) };
            Img { kind: k, bytes: b, note: vec!["hostile-block"] }
        } else {
            let bulk = *r.pick(&[40usize, 200, 3000]);
            cont::gen(k, r, &Opts { exif: bl, bulk })
        }
    };
    match r.below(12) {
        0 => (),
        1 => {
            let n = r.below(img.bytes.len() + 1);
            img.bytes.truncate(n);
            img.note.push("truncated");
        }
        2 => {
            // signature and noise
            let s: &[u8] = match k {
                Kind::Jpeg => b"\xff\xd8",
                Kind::Png => b"\x89PNG\r\n\x1a\n",
                Kind::Webp => b"RIFF\x20\0\0\0WEBP",
                Kind::Jxl => b"\0\0\0\x0cJXL \r\n\x87\n",
                Kind::Heif => b"\0\0\0\x14ftypheic\0\0\0\0heic",
                Kind::Tiff => b"II*\0",
            };
            let n = r.below(80);
            img.bytes = s.to_vec();
            img.bytes.extend(r.bytes(n));
            img.note.push("noise");
        }
        3 => {
            // splice with another image of any kind
            let k2 = pick_kind(r, true);
            let b2 = vec![small_block(r)];
            let o = cont::gen(k2, r, &Opts { exif: b2, bulk: 200 });
            let p = r.below(img.bytes.len() + 1);
            let q = r.below(o.bytes.len() + 1);
            img.bytes.truncate(p);
            img.bytes.extend(&o.bytes[q..]);
            img.note.push("spliced");
        }
        _ => {
            let n = r.range(1, 6);
            mutate(r, &mut img.bytes, n);
            img.note.push("mutated");
        }
    }
    if img.kind == Kind::Png && r.chance(3, 4) {
        fix_png(&mut img.bytes);
    }
    if img.kind == Kind::Webp && r.chance(1, 2) {
        fix_riff(&mut img.bytes);
    }
    img
}

/// any metadata object the public API can build, including inconsistent ones
pub fn hostile_meta(r: &mut Rng) -> Metadata {
    let mut m = if r.chance(1, 4) {
        let mut b = hostile_block(r);
        if r.chance(1, 2) {
            b = small_block(r);
        }
        Metadata::new_from_vec(&b, little_exif::filetype::FileExtension::TIFF).unwrap_or_default()
    } else {
        let o = GenOpts { max_tags: if r.chance(1, 20) { 80 } else { 10 }, max_value: if r.chance(1, 20) { 70_000 } else { 300 }, ..Default::default() };
        gen_meta(r, &o).meta
    };
    for _ in 0..r.below(6) {
        let nr = match r.below(12) {
            0 => u32::MAX,
            1 => u32::MAX - 1,
            2 => 70_000,
            3..=5 => r.below(4) as u32,
            _ => 0,
        };
        let grp = *r.pick(&[ExifTagGroup::GENERIC, ExifTagGroup::EXIF, ExifTagGroup::GPS, ExifTagGroup::INTEROP]);
        let v32 = |r: &mut Rng| -> Vec<u32> {
            let n = r.below(4);
            (0..n).map(|_| r.u32()).collect()
        };
        let bytes = |r: &mut Rng| -> Vec<u8> {
            let n = r.below(40);
            r.bytes(n)
        };
        let t = match r.below(12) {
            0 => ExifTag::StripOffsets(v32(r), (0..r.below(4)).map(|_| bytes(r)).collect()),
            1 => ExifTag::StripByteCounts(v32(r)),
            2 => ExifTag::ThumbnailOffset(v32(r), bytes(r)),
            3 => ExifTag::ThumbnailLength(v32(r)),
            4 => ExifTag::ExifOffset(v32(r)),
            5 => ExifTag::GPSInfo(v32(r)),
            6 => ExifTag::InteropOffset(v32(r)),
            7 => ExifTag::ImageDescription("\0\0\0".chars().take(r.below(4)).collect()),
            8 => ExifTag::UnknownINT32U(v32(r), *r.pick(&[0x8769u16, 0x8825, 0xa005, 0x0111, 0x0117, 0x0201, 0, 0xffff]), grp),
            9 => ExifTag::UnknownSTRING("ÿ\0a".into(), r.u16(), grp),
            10 => ExifTag::UnknownUNDEF(bytes(r), *r.pick(&[0x8769u16, 0x8825, 0xa005, 0x0111, 0x0117, 0x0201, 0x927c]), grp),
            _ => ExifTag::SubSecTime(String::new()),
        };
        match r.below(4) {
            0 => {
                m.get_ifd_mut(grp, nr);
            }
            1 => m.set_tag(t),
            _ => m.get_ifd_mut(grp, nr).set_tag(t),
        }
    }
    m
}
pub fn touched(img: &Img) -> u64 {
    crate::rng::hash_bytes(&img.bytes)
}
