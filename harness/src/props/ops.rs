//! C09 (path = memory), C15 (APP12/APP13), C17 (type detection), C18 (exported
//! fragments), C19 (failed operations leave everything untouched).
use crate::cont::{self, Img, Kind, Part, KINDS};
use crate::gen::*;
use crate::iohook::{self, Faults, Seen};
use crate::mutate::*;
use crate::props::block::classify;
use crate::props::image::*;
use crate::rng::*;
use crate::run::*;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::metadata::Metadata;
use std::collections::BTreeMap;
use std::io::{Cursor, Error, Read, Seek, SeekFrom};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "a case performs one operation (read, write, clear, clear APP12, clear APP13) on one generated, sample or corrupted image in memory and through a path, the latter possibly under shortened and interrupted reads and writes injected below the standard library, and compares success, decoded metadata and resulting bytes; non-trivial: the operation succeeded or changed bytes; distinct by operation and image bytes",
            assumptions: &["the path operation uses the type given by the extension (by the content for reading)", "regular files; no operating system errors besides short transfers and interruptions"],
            quick: 150_000,
            thorough: 6_000_000,
            run: c09,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C15",
            rule: "a case clears APP12 or APP13 in a generated or sample JPEG with such segments among others, between scans, and with look-alike bytes in payloads, scan data and trailer, and compares all other segments as seen by an independent parser, and the exact bytes when the image has no fill bytes; then clears again; or it tries a non-JPEG type and compares the bytes; non-trivial: at least one segment to remove; distinct by image bytes",
            assumptions: &["segments between scans count as removable segments"],
            quick: 400_000,
            thorough: 16_000_000,
            run: c15,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C17",
            rule: "a case detects the type of a byte string (full or near-miss signatures with arbitrary following bytes, images, noise; through readers that deliver short reads), or classifies a path (any extension in any letter case, unknown and missing extensions, missing files, directories) and performs operations on it, comparing with a table of signatures and extensions; non-trivial: a recognised type or a rejected operation on an existing file; distinct by input",
            assumptions: &["signatures that are only partly present may be classified either way", "HEIF brands other than heic, heif and avif may be left unrecognised"],
            quick: 400_000,
            thorough: 16_000_000,
            run: c17,
            min_nontrivial: 5_000,
        },
        Prop {
            id: "C18",
            rule: "a case exports generated metadata for one format, validates the fragment on its own, decodes it independently and compares it with the carrier that a write of the same metadata embeds in a generated image; non-trivial: at least one tag; distinct by fragment",
            assumptions: &["the PNG fragment of a compressed export is chunk type and data, without length and checksum", "the uncompressed PNG export is the raw-profile text"],
            quick: 400_000,
            thorough: 16_000_000,
            run: c18,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C19",
            rule: "a case makes an operation fail (corrupted images, types that do not match, unsupported types, EXIF too large for its carrier, TIFF without mandatory tags, missing or directory paths, read and open errors injected below the standard library) or reads an image, and compares the buffer, the file and the whole directory around it with the state before; opens for writing are observed while reading; non-trivial: the operation returned an error, or was a read; distinct by operation and image bytes",
            assumptions: &["operating system errors while the result is being written out (such as a full disk) are not covered"],
            quick: 120_000,
            thorough: 4_800_000,
            run: c19,
            min_nontrivial: 5_000,
        },
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Read,
    Write,
    Clear,
    App12,
    App13,
}
const OPS: [Op; 5] = [Op::Read, Op::Write, Op::Clear, Op::App12, Op::App13];
fn mutating_vec(op: Op, b: &mut Vec<u8>, ft: FileExtension, m: &Metadata) -> Result<(), Error> {
    match op {
        Op::Write => m.write_to_vec(b, ft),
        Op::Clear => Metadata::clear_metadata(b, ft),
        Op::App12 => Metadata::clear_app12_segment(b, ft),
        Op::App13 => Metadata::clear_app13_segment(b, ft),
        Op::Read => unreachable!(),
    }
}
fn mutating_path(op: Op, p: &Path, m: &Metadata) -> Result<(), Error> {
    match op {
        Op::Write => m.write_to_file(p),
        Op::Clear => Metadata::file_clear_metadata(p),
        Op::App12 => Metadata::file_clear_app12_segment(p),
        Op::App13 => Metadata::file_clear_app13_segment(p),
        Op::Read => unreachable!(),
    }
}
/// the harness' own idea of what the published signatures say
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig {
    Sure(FileExtension),
    Unknown,
    /// part of a signature, or a brand that may or may not be supported
    Unsure,
}
pub fn signature(b: &[u8]) -> Sig {
    let png = FileExtension::PNG { as_zTXt_chunk: true };
    let partial = |sig: &[u8], n: usize| b.len() >= n && b[..n] == sig[..n];
    if b.len() >= 12 && &b[4..8] == b"ftyp" && b[0] == 0xff {
        // a box of several GiB, or the start of some other format
        return Sig::Unsure;
    }
    let pngs = [0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    if b.starts_with(&pngs) {
        return Sig::Sure(png);
    }
    if b.starts_with(&[0xff, 0xd8, 0xff]) && b.len() >= 4 {
        return Sig::Sure(FileExtension::JPEG);
    }
    if b.starts_with(b"II*\0") || b.starts_with(b"MM\0*") {
        return if b.len() >= 8 { Sig::Sure(FileExtension::TIFF) } else { Sig::Unsure };
    }
    if b.len() >= 12 && b.starts_with(b"RIFF") && &b[8..12] == b"WEBP" {
        return Sig::Sure(FileExtension::WEBP);
    }
    if b.starts_with(b"\0\0\0\x0cJXL \r\n\x87\n") {
        return Sig::Sure(FileExtension::JXL);
    }
    if b.starts_with(&[0xff, 0x0a]) {
        return if b.len() >= 4 { Sig::Sure(FileExtension::NAKED_JXL) } else { Sig::Unsure };
    }
    if b.len() >= 12 && &b[4..8] == b"ftyp" {
        let brand = &b[8..12];
        if brand == b"heic" || brand == b"heif" || brand == b"avif" {
            return Sig::Sure(FileExtension::HEIF);
        }
        let others: [&[u8]; 12] = [b"mif1", b"msf1", b"heix", b"heim", b"heis", b"hevc", b"hevx", b"hevm", b"hevs", b"avis", b"miaf", b"mif2"];
        return if others.contains(&brand) { Sig::Unsure } else { Sig::Unknown };
    }
    if partial(&pngs, 4) || partial(&[0xff, 0xd8], 2) {
        return Sig::Unsure;
    }
    Sig::Unknown
}
fn same_ft(a: FileExtension, b: FileExtension) -> bool {
    matches!((a, b), (FileExtension::PNG { .. }, FileExtension::PNG { .. })) || a == b
}
fn ext_ft(ext: &str) -> Option<FileExtension> {
    KINDS.iter().find(|k| k.exts().iter().any(|e| e.eq_ignore_ascii_case(ext))).map(|k| k.ft())
}
fn rand_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn file_name(r: &mut Rng, ext: &str) -> String {
    let stem = *r.pick(&["img", "a b", "Ünï-cödé", "x.tar", ".hidden", "weird.png", "-dash", "日本"]);
    format!("{}.{}", stem, ext)
}
/// a fresh directory with bystander files
struct Yard {
    dir: PathBuf,
    before: BTreeMap<PathBuf, Option<Vec<u8>>>,
}
fn tree(d: &Path, v: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            let t = e.file_type().unwrap();
            if t.is_dir() {
                v.insert(p.clone(), None);
                tree(&p, v);
            } else if t.is_symlink() {
                v.insert(p.clone(), Some(std::fs::read_link(&p).unwrap().to_string_lossy().as_bytes().to_vec()));
            } else {
                v.insert(p.clone(), Some(std::fs::read(&p).unwrap()));
            }
        }
    }
}
impl Yard {
    fn new(c: &Ctx) -> Yard {
        let dir = c.tmp("yard");
        std::fs::remove_dir_all(&dir).ok();
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        std::fs::write(dir.join("bystander.jpg"), b"bystander").unwrap();
        std::fs::write(dir.join("sub/other.png"), b"other").unwrap();
        Yard { dir, before: BTreeMap::new() }
    }
    fn snap(&mut self) {
        self.before.clear();
        let mut v = BTreeMap::new();
        tree(&self.dir, &mut v);
        self.before = v;
    }
    /// what changed, with the exception of `except`
    fn changes(&self, except: Option<&Path>) -> Option<String> {
        let mut now = BTreeMap::new();
        tree(&self.dir, &mut now);
        for (p, v) in &self.before {
            if Some(p.as_path()) == except {
                continue;
            }
            match now.get(p) {
                None => return Some(format!("{} is gone", self.rel(p))),
                Some(w) if w != v => return Some(format!("{} changed from {} to {} bytes", self.rel(p), v.as_ref().map_or(0, |x| x.len()), w.as_ref().map_or(0, |x| x.len()))),
                _ => (),
            }
        }
        now.keys().find(|p| !self.before.contains_key(*p)).map(|p| format!("{} appeared", self.rel(p)))
    }
    fn rel(&self, p: &Path) -> String {
        p.strip_prefix(&self.dir).unwrap_or(p).display().to_string()
    }
}
impl Drop for Yard {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.dir).ok();
    }
}
fn note_io(c: &mut Ctx, s: &Seen) {
    c.add("io.reads", s.reads as u64);
    c.add("io.writes", s.writes as u64);
    c.add("io.shortened_or_interrupted", s.shortened as u64);
    c.add("io.failed", s.failed as u64);
}

// ------------------------------------------------------------------- C09
fn c09(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = if r.chance(1, 3) { hostile_image(&mut r) } else { any_image(&mut r, true, true) };
    let op = if img.kind == Kind::Jpeg { *r.pick(&OPS) } else { *r.pick(&OPS[..3]) };
    let k = if r.chance(1, 12) { *r.pick(&KINDS) } else { img.kind };
    let ext = ext_for(&mut r, k);
    let meta = match c.call("build metadata", 1 << 20, || meta_for(&mut r, k)) {
        Out::Ok(m) => m,
        Out::Panic(_) => return,
    };
    let faults = Faults { short: if r.chance(1, 2) { r.u64() | 1 } else { 0 }, ..Default::default() };
    let dir = c.tmp("d");
    std::fs::create_dir_all(&dir).unwrap();
    let real = dir.join(file_name(&mut r, ext));
    std::fs::write(&real, &img.bytes).unwrap();
    let mut p = real.clone();
    if r.chance(1, 10) {
        p = dir.join(format!("link.{}", ext));
        std::fs::remove_file(&p).ok();
        std::os::unix::fs::symlink(&real, &p).unwrap();
        c.count("through_symlink");
    }
    let kn = img.kind.name();
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    let what = format!("{:?} of {} {:?} as .{}{}", op, kn, img.note, ext, if faults.short != 0 { " with short transfers" } else { "" });
    c.count(&format!("op.{:?}.{}", op, k.name()));
    c.sample(|| what.clone());
    let len = img.bytes.len();
    if op == Op::Read {
        let ft = match signature(&img.bytes) {
            Sig::Sure(f) => f,
            Sig::Unknown => k.ft(),
            Sig::Unsure => {
                c.count("ambiguous_type");
                std::fs::remove_dir_all(&dir).ok();
                return;
            }
        };
        let a = c.call("read in memory", len, || Metadata::new_from_vec(&img.bytes, ft));
        let b = c.call("read by path", len, || iohook::watch(faults, || Metadata::new_from_path(&p)));
        let after = std::fs::read(&real).unwrap_or_default();
        std::fs::remove_dir_all(&dir).ok();
        let (a, (b, seen)) = match (a, b) {
            (Out::Ok(a), Out::Ok(b)) => (a, b),
            _ => {
                c.count("panicked"); // C01
                return;
            }
        };
        note_io(c, &seen);
        c.eval(a.is_ok(), hash_bytes(&img.bytes));
        c.count(if a.is_ok() { "both_succeed" } else { "both_fail" });
        match (a, b) {
            (Ok(x), Ok(y)) => {
                let (mx, my) = (model_of(&x), model_of(&y));
                if let Some(d) = mx.diff(&my, "in memory", "by path") {
                    c.violate(format!("{} reads differently by path: {}", kn, classify(&d)), format!("{}: {}", what, d), &blobs);
                }
            }
            (Err(_), Err(_)) => (),
            (x, y) => c.violate(
                format!("{} read {} by path only", kn, if x.is_ok() { "fails" } else { "succeeds" }),
                format!("{}: in memory {:?}, by path {:?}", what, x.as_ref().err().map(|e| e.to_string()), y.as_ref().err().map(|e| e.to_string())),
                &blobs,
            ),
        }
        if after != img.bytes {
            c.violate(format!("{} file changed by reading", kn), what, &blobs);
        }
        return;
    }
    let mut buf = img.bytes.clone();
    let a = c.call("modify in memory", len + (1 << 20), || mutating_vec(op, &mut buf, k.ft(), &meta.meta));
    let b = c.call("modify by path", len + (1 << 20), || iohook::watch(faults, || mutating_path(op, &p, &meta.meta)));
    let file = std::fs::read(&real).unwrap_or_default();
    std::fs::remove_dir_all(&dir).ok();
    let (a, (b, seen)) = match (a, b) {
        (Out::Ok(a), Out::Ok(b)) => (a, b),
        _ => {
            c.count("panicked"); // C02
            return;
        }
    };
    note_io(c, &seen);
    c.eval(a.is_ok(), hash_bytes(&img.bytes) ^ op as u64);
    if a.is_ok() {
        c.count(if buf.len() > len {
            "result_longer"
        } else if buf.len() < len {
            "result_shorter"
        } else {
            "result_same_length"
        });
    } else {
        c.count("both_fail");
    }
    let on = format!("{:?}", op).to_lowercase();
    let blobs: [(&str, &[u8]); 3] = [("image", &img.bytes), ("in-memory", &buf), ("by-path", &file)];
    if a.is_ok() != b.is_ok() {
        c.violate(
            format!("{} {} {} by path only", k.name(), on, if a.is_ok() { "fails" } else { "succeeds" }),
            format!("{}: in memory {:?}, by path {:?}", what, a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string())),
            &blobs,
        );
    } else if buf != file {
        let d = buf.iter().zip(&file).position(|(x, y)| x != y).unwrap_or(buf.len().min(file.len()));
        c.violate(
            format!("{} {} leaves different bytes by path", k.name(), on),
            format!("{}: {} bytes in memory, {} bytes in the file (original {}), first difference at {}", what, buf.len(), file.len(), len, d),
            &blobs,
        );
    }
}

// ------------------------------------------------------------------- C15
fn drop_seg(p: &[Part], m: u8) -> Vec<Part> {
    let n = format!("seg-{:02X}", m);
    p.iter().filter(|x| x.name != n).cloned().collect()
}
/// byte-exact expectation for an image without fill bytes
fn cut_segments(b: &[u8], m: u8) -> Vec<u8> {
    let mut o = b[..2].to_vec();
    let mut p = 2;
    while p + 4 <= b.len() {
        let k = b[p + 1];
        if k == 0xd9 {
            break;
        }
        let n = 2 + u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
        if k != m {
            o.extend(&b[p..p + n]);
        }
        p += n;
        if k == 0xda {
            let s = p;
            while !(b[p] == 0xff && b[p + 1] != 0 && !(0xd0..=0xd7).contains(&b[p + 1])) {
                p += 1;
            }
            o.extend(&b[s..p]);
        }
    }
    o.extend(&b[p..]);
    o
}
fn c15(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let (op, m) = if r.chance(1, 2) { (Op::App12, 0xecu8) } else { (Op::App13, 0xed) };
    let api = pick_api(&mut r);
    if r.chance(1, 8) {
        // other types are refused
        let k = *r.pick(&KINDS[1..]);
        let img = any_kind_image(&mut r, k);
        let ft = if r.chance(1, 8) { FileExtension::NAKED_JXL } else { k.ft() };
        let ext = ext_for(&mut r, k);
        c.eval(true, hash_bytes(&img.bytes));
        c.count("other_type");
        let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
        let (res, after) = match run_op(c, op, api, ft, ext, &img.bytes) {
            Some(x) => x,
            None => return,
        };
        if res.is_ok() {
            c.violate(format!("{:?} clearing accepts {}", op, k.name()), describe(&img, api), &blobs);
        }
        if after != img.bytes {
            c.violate(format!("{:?} clearing changes a {}", op, k.name()), describe(&img, api), &blobs);
        }
        return;
    }
    let mut img = any_kind_image(&mut r, Kind::Jpeg);
    let mut ext = ext_for(&mut r, Kind::Jpeg);
    if r.chance(1, 4) {
        // content decides nothing here: only the claimed type does
        ext = "jpeg";
    }
    let before = cont::parse(Kind::Jpeg, &img.bytes).unwrap();
    let n = before.parts.len() - drop_seg(&before.parts, m).len();
    c.eval(n > 0, hash_bytes(&img.bytes) ^ m as u64);
    c.count(&format!("segments_to_remove.{}", n.min(4)));
    count_img(c, &img);
    c.sample(|| format!("{:?}: {} segments to remove from {}", op, n, describe(&img, api)));
    let (res, out) = match run_op(c, op, api, FileExtension::JPEG, ext, &img.bytes) {
        Some(x) => x,
        None => return,
    };
    let blobs: [(&str, &[u8]); 2] = [("image", &img.bytes), ("result", &out)];
    if let Err(e) = res {
        c.violate(format!("{:?} clearing of a well-formed jpeg fails: {}", op, classify(&e.to_string())), format!("{}: {}", describe(&img, api), e), &blobs);
        return;
    }
    match cont::parse(Kind::Jpeg, &out) {
        Ok(after) => {
            if let Some(d) = cont::part_diff(&drop_seg(&before.parts, m), &after.parts) {
                c.violate(format!("{:?} clearing: {}", op, cont::part_class(&d)), format!("{}: {}", describe(&img, api), d), &blobs);
            }
            if before.carriers != after.carriers {
                c.violate(format!("{:?} clearing changes the EXIF data", op), describe(&img, api), &blobs);
            }
        }
        Err(e) => c.violate(format!("{:?} clearing: result not parsable: {}", op, classify(&e)), format!("{}: {}", describe(&img, api), e), &blobs),
    }
    if !img.has("fill-bytes") && !img.has("sample") {
        c.count("byte_exact_comparisons");
        if cut_segments(&img.bytes, m) != out {
            c.violate(format!("{:?} clearing leaves other bytes than the remaining segments", op), describe(&img, api), &blobs);
        }
    }
    if n == 0 && out != img.bytes {
        c.violate(format!("{:?} clearing changes a jpeg without such segments", op), describe(&img, api), &blobs);
    }
    img.bytes = out.clone();
    if let Some((res2, out2)) = run_op(c, op, api, FileExtension::JPEG, ext, &out) {
        if res2.is_err() || out2 != out {
            c.violate(format!("second {:?} clearing {}", op, if res2.is_err() { "fails" } else { "changes the image again" }), describe(&img, api), &[("once", &out), ("twice", &out2)]);
        }
    }
}
fn any_kind_image(r: &mut Rng, k: Kind) -> Img {
    if r.chance(1, 25) {
        let v: Vec<&Sample> = samples().iter().filter(|s| s.kind == k).collect();
        if !v.is_empty() {
            let s = r.pick(&v);
            return Img { kind: k, bytes: s.bytes.clone(), note: vec!["sample"] };
        }
    }
    let bl = rand_blocks(r, k, true);
    rand_image(r, k, &bl)
}
fn run_op(c: &mut Ctx, op: Op, api: Api, ft: FileExtension, ext: &str, b: &[u8]) -> Option<(Result<(), Error>, Vec<u8>)> {
    let m = Metadata::new();
    let (res, after) = match api {
        Api::Vec => {
            let mut v = b.to_vec();
            (c.call(&format!("{:?} Vec", op), b.len(), || mutating_vec(op, &mut v, ft, &m)), v)
        }
        Api::Path => {
            let p = c.tmp(&format!("f.{}", ext));
            std::fs::write(&p, b).unwrap();
            let o = c.call(&format!("{:?} Path", op), b.len(), || mutating_path(op, &p, &m));
            let v = std::fs::read(&p).unwrap_or_default();
            std::fs::remove_file(&p).ok();
            (o, v)
        }
    };
    match res {
        Out::Ok(r) => Some((r, after)),
        Out::Panic(p) => {
            c.violate(format!("{:?} panics: {}", op, norm_panic(&p)), p, &[("image", b)]);
            None
        }
    }
}

// ------------------------------------------------------------------- C17
/// a reader that delivers data in small pieces, as pipes and sockets do
struct Dribble<'a> {
    c: Cursor<&'a [u8]>,
    r: Rng,
}
impl Read for Dribble<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.r.chance(1, 8) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = self.r.range(1, b.len().min(1 + self.r.clone().below(12)));
        self.c.read(&mut b[..n])
    }
}
impl Seek for Dribble<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
/// signatures of formats that resemble a supported one
const RELATED: [&[u8]; 34] = [
    b"II+\0\x08\0\0\0", b"MM\0+\0\x08\0\0", b"IIRO\x08\0\0\0", b"IIRS\x08\0\0\0", b"IIU\0\x08\0\0\0", b"MMOR\0\0\0\x08", b"II\0*\0\0\0\x08", b"MM*\0\x08\0\0\0", b"MI*\0\x08\0\0\0", b"IM\0*\0\0\0\x08", b"II\xbc\x01\x08\0\0\0",
    b"\x8bJNG\r\n\x1a\n", b"\x8aMNG\r\n\x1a\n", b"\x89PNG\n\x1a\n\0", b"PNG\r\n\x1a\n", b"\0\0\0\x0cjP  \r\n\x87\n", b"\0\0\0\x0cJXL\0\r\n\x87\n", b"\0\0\0\x0cJXS \r\n\x87\n", b"\0\0\0\x0cJXL \n\x87\n\0", b"\xff\x0b\xfa\x01", b"\xff\x4f\xff\x51", b"\xff\xd9\xff\xe0",
    b"\xff\xfb\x90\0", b"RIFF\x10\0\0\0AVI ", b"RIFF\x10\0\0\0WEBM", b"RIFX\x10\0\0\0WEBP", b"RF64\x10\0\0\0WEBP", b"FORM\x10\0\0\0WEBP", b"\0\0\0\x18ftypmp41", b"\0\0\0\x18ftypqt  ", b"\0\0\0\x18ftypcrx ", b"\0\0\0\x18stypheic", b"\0\0\0\x18moovheic", b"\0\0\0\x18ftypjxl ",
];
fn detect_input(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let tail = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 4, 8, 20, 40, 200]);
        r.bytes(n)
    };
    let sigs: [&[u8]; 16] = [
        b"\x89PNG\r\n\x1a\n", b"\xff\xd8\xff\xe0", b"\xff\xd8\xff\xdb", b"II*\0\x08\0\0\0", b"MM\0*\0\0\0\x08", b"\0\0\0\x0cJXL \r\n\x87\n", b"\xff\x0a\xfa\x01", b"\0\0\0\x18ftypheic", b"\0\0\0\x18ftypheif", b"\0\0\0\x18ftypavif",
        b"\0\0\0\x18ftypmif1", b"GIF89a", b"BM", b"RIFF\x10\0\0\0WAVE", b"\0\0\0\x14ftypisom", b"%PDF-1.7",
    ];
    match r.below(10) {
        8 | 9 => {
            let mut v = r.pick(&RELATED).to_vec();
            v.extend(tail(r));
            (v, "related")
        }
        0 | 1 => {
            let mut v = r.pick(&sigs).to_vec();
            v.extend(tail(r));
            (v, "signature")
        }
        2 => {
            let mut v = b"RIFF".to_vec();
            v.extend(r.bytes(4));
            v.extend(b"WEBP");
            v.extend(tail(r));
            (v, "signature")
        }
        3 => {
            // the size of a ftyp box is not part of the signature
            let mut v = r.bytes(4);
            v.extend(b"ftyp");
            v.extend(*r.pick(&[b"heic", b"heif", b"avif", b"mp42", b"HEIC", b"avic"]));
            v.extend(tail(r));
            (v, "ftyp")
        }
        4 => {
            // near miss: one byte of a signature changed, or shifted
            let mut v = r.pick(&sigs).to_vec();
            let k = r.below(v.len());
            if r.chance(1, 4) {
                v.insert(0, r.u8());
            } else {
                // one bit, the next or previous value, or anything else
                v[k] = match r.below(4) {
                    0 => v[k] ^ 1 << r.below(8),
                    1 => v[k].wrapping_add(1),
                    2 => v[k].wrapping_sub(1),
                    _ => v[k].wrapping_add(1 + r.below(255) as u8),
                };
            }
            v.extend(tail(r));
            (v, "near-miss")
        }
        5 => {
            let n = r.below(40);
            (r.bytes(n), "noise")
        }
        6 => {
            let mut v = r.pick(&sigs).to_vec();
            let n = r.below(v.len() + 1);
            v.truncate(n);
            (v, "short")
        }
        _ => {
            let k = *r.pick(&KINDS);
            (any_kind_image(r, k).bytes, "image")
        }
    }
}
fn c17(c: &mut Ctx) {
    let mut r = c.rng.clone();
    match r.below(5) {
        0 | 1 => c17_detect(c, &mut r),
        2 => c17_extension(c, &mut r),
        3 => c17_read(c, &mut r),
        _ => c17_refuse(c, &mut r),
    }
}
fn c17_detect(c: &mut Ctx, r: &mut Rng) {
    let (b, what) = detect_input(r);
    let want = signature(&b);
    let dribble = r.chance(1, 2);
    let rr = r.clone();
    let blobs: [(&str, &[u8]); 1] = [("data", &b)];
    let got = match c.call("auto_detect", b.len(), || {
        if dribble {
            FileExtension::auto_detect(&mut Dribble { c: Cursor::new(&b), r: rr })
        } else {
            FileExtension::auto_detect(&mut Cursor::new(&b))
        }
    }) {
        Out::Ok(g) => g,
        Out::Panic(p) => {
            c.violate(format!("detection panics: {}", norm_panic(&p)), p, &blobs);
            return;
        }
    };
    c.eval(matches!(want, Sig::Sure(_)), hash_bytes(&b));
    c.count(&format!("detect.{}.{}", what, match want {
        Sig::Sure(f) => format!("{:?}", f),
        s => format!("{:?}", s),
    }));
    c.sample(|| format!("detect {} {:02x?} -> {:?}", what, &b[..b.len().min(16)], got));
    let ok = match (want, got) {
        (Sig::Unsure, _) => true,
        (Sig::Sure(a), Some(g)) => same_ft(a, g),
        (Sig::Unknown, None) => true,
        _ => false,
    };
    if !ok {
        c.violate(
            format!("content detected as {:?} instead of {:?}", got, want),
            format!("{}{}: {:02x?}", what, if dribble { " through a reader with short reads" } else { "" }, &b[..b.len().min(40)]),
            &blobs,
        );
    }
}
const BAD_EXT: [&str; 10] = ["gif", "txt", "jpgx", "pn", "bmp", "jp2", "tiffx", "web", "", "heics"];
fn c17_extension(c: &mut Ctx, r: &mut Rng) {
    use std::str::FromStr;
    let bad = r.chance(1, 3);
    let k = *r.pick(&KINDS);
    let base = match (bad, r.below(3)) {
        (false, _) => r.pick(k.exts()).to_string(),
        (_, 0) => r.pick(&BAD_EXT).to_string(),
        _ => {
            // one edit away from a known extension
            let mut s: Vec<char> = r.pick(k.exts()).chars().collect();
            let i = r.below(s.len() + 1);
            let x = *r.pick(&[' ', '~', '\t', '\n', '_', '-', '0', '1', 'x', 'f', 'g', '\u{131}', '\u{fb01}', '\u{e9}', '\u{200b}', '\u{a0}', '\u{ff4a}', '*', '$', '"']);
            match r.below(4) {
                0 | 1 => s.insert(*r.pick(&[0, i, s.len(), s.len()]), x),
                2 => s[i.min(3) % 3] = x,
                _ => {
                    s.remove(i.min(2));
                }
            }
            let s: String = s.into_iter().collect();
            if KINDS.iter().any(|k| k.exts().iter().any(|e| e.eq_ignore_ascii_case(&s))) {
                "jpgx".into()
            } else {
                s
            }
        }
    };
    let ext = rand_case(r, &base);
    let p = c.tmp(&file_name(r, &ext));
    let exists = r.chance(9, 10);
    if exists {
        std::fs::write(&p, b"x").unwrap();
    } else {
        std::fs::remove_file(&p).ok();
    }
    let got = c.call("get_file_type", 0, || (get_file_type(&p), FileExtension::from_str(&ext)));
    std::fs::remove_file(&p).ok();
    let (a, b) = match got {
        Out::Ok(x) => x,
        Out::Panic(x) => {
            c.violate(format!("classifying a path panics: {}", norm_panic(&x)), format!("{:?}: {}", p, x), &[]);
            return;
        }
    };
    let want = if bad { None } else { Some(k.ft()) };
    c.eval(true, hash_str(&ext) ^ exists as u64);
    c.count(if bad { "extension.unknown" } else { "extension.known" });
    let show = |x: &Result<FileExtension, Error>| x.as_ref().map(|f| format!("{:?}", f)).unwrap_or("an error".into());
    let path_want = if exists { want } else { None };
    if a.as_ref().ok().copied() != path_want {
        c.violate(format!("a path with extension {} is classified as {}", base, show(&a)), format!("{:?} (exists: {})", p, exists), &[]);
    }
    if b.as_ref().ok().copied() != want {
        c.violate(format!("extension {} is parsed as {}", base, show(&b)), ext, &[]);
    }
}
fn c17_read(c: &mut Ctx, r: &mut Rng) {
    // content takes precedence over a wrong extension
    let k = *r.pick(&KINDS);
    let bl = vec![small_block(r)];
    let img = rand_image(r, k, &bl);
    let sure = match signature(&img.bytes) {
        Sig::Sure(f) => f,
        _ => return,
    };
    let k2 = *r.pick(&KINDS);
    let ext = if r.chance(1, 8) { String::new() } else { rand_case(r, r.clone().pick(k2.exts())) };
    let p = if ext.is_empty() { c.tmp("noextension") } else { c.tmp(&format!("c.{}", ext)) };
    std::fs::write(&p, &img.bytes).unwrap();
    let got = c.call("read by path", img.bytes.len(), || Metadata::new_from_path(&p));
    std::fs::remove_file(&p).ok();
    let want = c.call("read in memory", img.bytes.len(), || Metadata::new_from_vec(&img.bytes, sure));
    let (got, want) = match (got, want) {
        (Out::Ok(a), Out::Ok(b)) => (a, b),
        _ => return,
    };
    c.eval(k != k2, hash_bytes(&img.bytes) ^ hash_str(&ext));
    c.count(&format!("read.{}.as.{}", k.name(), if ext.is_empty() { "noext" } else { k2.name() }));
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    match (&got, &want) {
        (Ok(a), Ok(b)) => {
            if let Some(d) = model_of(b).diff(&model_of(a), "by content", "by path") {
                c.violate(format!("{} read wrongly under another extension", k.name()), format!(".{}: {}", ext, d), &blobs);
            }
        }
        (Err(_), Err(_)) => (),
        (Err(e), Ok(_)) if ext.is_empty() => c.violate(format!("{} without extension is not read", k.name()), e.to_string(), &blobs),
        (a, _) => c.violate(
            format!("{} under another extension {}", k.name(), if a.is_ok() { "is read although its content is not" } else { "is not read" }),
            format!(".{}: by path {:?}, in memory {:?}", ext, got.as_ref().err().map(|e| e.to_string()), want.as_ref().err().map(|e| e.to_string())),
            &blobs,
        ),
    }
}
/// operations on things that are no supported image files
fn c17_refuse(c: &mut Ctx, r: &mut Rng) {
    let mut y = Yard::new(c);
    let k = *r.pick(&KINDS);
    let mode = r.below(5);
    let img = any_kind_image(r, k);
    let good = rand_case(r, r.clone().pick(k.exts()));
    let (p, label) = match mode {
        0 => {
            let p = y.dir.join(format!("x.{}", rand_case(r, r.clone().pick(&BAD_EXT[..8]))));
            std::fs::write(&p, &img.bytes).unwrap();
            (p, "unknown extension")
        }
        1 => {
            let p = y.dir.join("noextension");
            std::fs::write(&p, &img.bytes).unwrap();
            (p, "no extension")
        }
        2 => (y.dir.join(format!("missing.{}", good)), "missing file"),
        3 => {
            let p = y.dir.join(format!("directory.{}", good));
            std::fs::create_dir(&p).unwrap();
            (p, "directory")
        }
        _ => {
            let p = y.dir.join(format!("dangling.{}", good));
            std::os::unix::fs::symlink(y.dir.join("nowhere.jpg"), &p).unwrap();
            (p, "dangling link")
        }
    };
    y.snap();
    let op = *r.pick(&OPS);
    if op == Op::Read && mode == 1 {
        return; // content decides
    }
    let meta = meta_for(r, k).meta;
    let res = c.call(&format!("{:?} on {}", op, label), img.bytes.len() + (1 << 20), || match op {
        Op::Read => Metadata::new_from_path(&p).map(|_| ()),
        _ => mutating_path(op, &p, &meta),
    });
    c.eval(true, hash_bytes(&img.bytes) ^ (op as u64) << 3 ^ mode as u64);
    c.count(&format!("refuse.{}.{:?}", label, op));
    c.sample(|| format!("{:?} on {}", op, label));
    match res {
        Out::Panic(x) => c.violate(format!("{:?} on a {} panics: {}", op, label, norm_panic(&x)), x, &[]),
        Out::Ok(Ok(())) => c.violate(format!("{:?} on a {} succeeds", op, label), format!("{}", p.display()), &[("image", &img.bytes)]),
        Out::Ok(Err(_)) => (),
    }
    if let Some(d) = y.changes(None) {
        c.violate(format!("{:?} on a {} changes the file system", op, label), d, &[("image", &img.bytes)]);
    }
}

// ------------------------------------------------------------------- C18
/// the embedded carrier, verbatim, as the container stores it
fn embedded(k: Kind, b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v = vec![];
    match k {
        Kind::Jpeg => {
            let mut p = 2;
            while p + 4 <= b.len() && b[p] == 0xff && b[p + 1] != 0xda && b[p + 1] != 0xd9 {
                if b[p + 1] == 0xff {
                    p += 1;
                    continue;
                }
                let n = 2 + u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
                if b[p + 1] == 0xe1 && b[p + 4..].starts_with(b"Exif\0\0") {
                    v.push(b[p..p + n].to_vec());
                }
                p += n;
            }
        }
        Kind::Png => {
            for ch in cont::png::chunks(b)?.0 {
                if ch.ty == b"eXIf" || ch.ty == b"zTXt" && ch.data.starts_with(b"Raw profile type exif\0") {
                    v.push([ch.ty, ch.data].concat());
                }
            }
        }
        Kind::Webp => {
            let mut p = 12;
            while p + 8 <= b.len() {
                let n = u32::from_le_bytes(b[p + 4..p + 8].try_into().unwrap()) as usize;
                let e = p + 8 + n + n % 2;
                if &b[p..p + 4] == b"EXIF" {
                    v.push(b[p..e.min(b.len())].to_vec());
                }
                p = e;
            }
        }
        Kind::Heif => {
            let (_, m) = cont::heif::parse_full(b)?;
            for i in m.items.iter().filter(|i| &i.ty == b"Exif") {
                v.push(i.data.clone());
            }
        }
        _ => (),
    }
    Ok(v)
}
fn c18(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let k = *r.pick(&KINDS);
    let g = match c.call("build metadata", 1 << 20, || meta_for(&mut r, k)) {
        Out::Ok(m) => m,
        _ => return,
    };
    let raw_png = k == Kind::Png && r.chance(1, 4);
    let ft = if raw_png {
        FileExtension::PNG { as_zTXt_chunk: false }
    } else if k == Kind::Jxl && r.chance(1, 3) {
        FileExtension::NAKED_JXL
    } else {
        k.ft()
    };
    let enc = match c.call("encode", 1 << 20, || g.meta.encode()) {
        Out::Ok(Ok(b)) => b,
        _ => return,
    };
    let want = written(&g.model);
    let res = match c.call(&format!("export {:?}", ft), 1 << 20, || g.meta.as_u8_vec(ft)) {
        Out::Ok(r) => r,
        Out::Panic(p) => {
            c.violate(format!("export for {:?} panics: {}", ft, norm_panic(&p)), p, &[]);
            return;
        }
    };
    let kn = if raw_png { "png text".to_string() } else { k.name().to_string() };
    c.count(&format!("export.{}", kn));
    let frag = match res {
        Err(e) => {
            c.eval(true, hash_bytes(&enc) ^ k as u64);
            if matches!(k, Kind::Jxl | Kind::Tiff) {
                c.count("unsupported_reported");
            } else if k == Kind::Jpeg && enc.len() + 8 > 65535 {
                c.count("documented_limit");
            } else {
                c.violate(format!("export for {} fails: {}", kn, classify(&e.to_string())), format!("{} [{}]", e, g.model.describe()), &[]);
            }
            return;
        }
        Ok(f) => f,
    };
    if matches!(k, Kind::Jxl | Kind::Tiff) {
        c.count("exported_for_other_type");
        return; // nothing is promised about such a fragment
    }
    c.eval(!want.tags.is_empty(), hash_bytes(&frag));
    c.sample(|| format!("{} fragment of {} bytes for {}", kn, frag.len(), want.describe()));
    let blobs: [(&str, &[u8]); 1] = [("fragment", &frag)];
    // stand-alone form
    let block: Result<Vec<u8>, String> = match k {
        Kind::Jpeg => {
            if frag.len() < 10 || frag[..2] != [0xff, 0xe1] || u16::from_be_bytes([frag[2], frag[3]]) as usize + 2 != frag.len() || &frag[4..10] != b"Exif\0\0" {
                Err("marker, length or EXIF header wrong".into())
            } else {
                Ok(frag[10..].to_vec())
            }
        }
        Kind::Png if raw_png => cont::png::raw_profile(&frag).map(|v| cont::strip_prefix(&v).to_vec()),
        Kind::Png => {
            if !frag.starts_with(b"zTXt") {
                Err("not a zTXt chunk".into())
            } else {
                cont::png::text(b"zTXt", &frag[4..]).and_then(|t| {
                    if t.keyword != b"Raw profile type exif" {
                        return Err("wrong keyword".into());
                    }
                    cont::png::raw_profile(&t.text).map(|v| cont::strip_prefix(&v).to_vec())
                })
            }
        }
        Kind::Webp => {
            let n = cont::le32(&frag, 4).unwrap_or(0) as usize;
            if !frag.starts_with(b"EXIF") || frag.len() != 8 + n + n % 2 || n % 2 == 1 && frag.last() != Some(&0) {
                Err("chunk header, length or padding wrong".into())
            } else {
                Ok(cont::strip_prefix(&frag[8..8 + n]).to_vec())
            }
        }
        _ => {
            let o = cont::be32(&frag, 0).unwrap_or(u32::MAX) as usize;
            if o + 4 > frag.len() {
                Err("TIFF header offset runs past the end".into())
            } else {
                Ok(frag[4 + o..].to_vec())
            }
        }
    };
    match block {
        Err(e) => c.violate(format!("{} fragment malformed: {}", kn, classify(&e)), format!("{} [{}]", e, g.model.describe()), &blobs),
        Ok(b) => {
            // the raw profile ends with one extra zero byte
            let exact = b == enc || k == Kind::Png && b.strip_suffix(&[0]) == Some(&enc[..]);
            if !exact {
                c.violate(format!("{} fragment does not hold exactly the encoded metadata", kn), format!("{} bytes, encoded {} bytes", b.len(), enc.len()), &blobs);
            }
            match carrier_model(&b) {
                _ if want.tags.is_empty() => (), // the empty area carries no directory
                Ok(m) => {
                    if let Some(d) = want.diff(&m, "written", "exported") {
                        c.violate(format!("{} fragment holds other tags: {}", kn, classify(&d)), d, &blobs);
                    }
                }
                Err(e) => c.violate(format!("{} fragment not decodable: {}", kn, classify(&e)), e, &blobs),
            }
        }
    }
    if raw_png {
        return;
    }
    if want.tags.is_empty() {
        return; // writing nothing embeds an empty area
    }
    // equals what a write embeds
    let img = any_kind_image(&mut r, k);
    if unsupported(&img) {
        return;
    }
    let api = pick_api(&mut r);
    let ext = ext_for(&mut r, k);
    if let Out::Ok(Res { err: None, bytes }) = do_write(c, api, k, ext, &img.bytes, &g.meta) {
        match embedded(k, &bytes) {
            Ok(v) => {
                c.count("compared_with_embedded");
                // an existing HEIF item keeps its form (with or without the
                // EXIF header in front of the TIFF header)
                let body = |x: &[u8]| -> Vec<u8> {
                    let o = cont::be32(x, 0).unwrap_or(u32::MAX) as usize;
                    x.get(4 + o..).map(|x| cont::strip_prefix(x).to_vec()).unwrap_or_default()
                };
                let had_item = k == Kind::Heif && embedded(k, &img.bytes).map_or(true, |v| !v.is_empty());
                if !v.iter().any(|x| *x == frag || had_item && body(x) == body(&frag)) {
                    c.violate(
                        format!("{} fragment differs from what a write embeds", kn),
                        format!("{}: fragment of {} bytes, embedded carriers of {:?} bytes", describe(&img, api), frag.len(), v.iter().map(|x| x.len()).collect::<Vec<_>>()),
                        &[("fragment", &frag), ("result", &bytes)],
                    );
                }
            }
            Err(_) => c.count("malformed_result"),
        }
    } else {
        c.count("write_failed");
    }
}

// ------------------------------------------------------------------- C19
fn c19(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = if r.chance(2, 3) { hostile_image(&mut r) } else { any_image(&mut r, true, true) };
    let op = *r.pick(&[Op::Read, Op::Write, Op::Write, Op::Write, Op::Clear, Op::Clear, Op::App12, Op::App13]);
    let wrong = r.chance(1, 5);
    let k = if wrong { *r.pick(&KINDS) } else { img.kind };
    let ft = if r.chance(1, 20) { FileExtension::NAKED_JXL } else { k.ft() };
    let meta = match c.call("build metadata", 1 << 20, || match r.below(4) {
        0 => hostile_meta(&mut r),
        1 => {
            // too large for a JPEG segment, and not fit for a TIFF
            let mut m = Metadata::new();
            m.set_tag(little_exif::exif_tag::ExifTag::MakerNote(r.bytes(70_000)));
            m
        }
        2 => gen_meta(&mut r, &GenOpts::default()).meta,
        _ => meta_for(&mut r, k).meta,
    }) {
        Out::Ok(m) => m,
        Out::Panic(_) => return,
    };
    let kn = k.name();
    let what = format!("{:?} of {} {:?} as {}", op, img.kind.name(), img.note, kn);
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    c.count(&format!("op.{:?}", op));
    c.sample(|| what.clone());
    let budget = img.bytes.len() + (1 << 20);
    if op != Op::Read && r.chance(1, 2) {
        let mut b = img.bytes.clone();
        let res = c.call("modify in memory", budget, || mutating_vec(op, &mut b, ft, &meta));
        match res {
            Out::Ok(Ok(())) => {
                c.count("vec.succeeded");
                c.eval(false, 0);
            }
            Out::Ok(Err(e)) => {
                c.count("vec.failed");
                c.count(&format!("failed.{:?}.{}", op, kn));
                c.eval(true, hash_bytes(&img.bytes) ^ op as u64);
                if b != img.bytes {
                    c.violate(format!("failed {:?} leaves the {} buffer changed", op, kn), format!("{}: {} ({} bytes before, {} after)", what, e, img.bytes.len(), b.len()), &[("image", &img.bytes), ("after", &b)]);
                }
            }
            Out::Panic(_) => c.count("panicked"),
        }
        return;
    }
    let mut y = Yard::new(c);
    let ext = ext_for(&mut r, k);
    let p = y.dir.join(file_name(&mut r, ext));
    std::fs::write(&p, &img.bytes).unwrap();
    y.snap();
    let mut f = Faults::default();
    match r.below(6) {
        0 => f.fail_read = Some(r.below(6) as u32),
        1 => f.fail_open = Some(r.below(4) as u32),
        2 => {
            // read errors late in files that are read in many small pieces
            f.fail_read = Some(r.below(60) as u32);
            f.short = r.u64() | 1;
        }
        _ => (),
    }
    let res = c.call(&format!("{:?} by path", op), budget, || {
        iohook::watch(f, || match op {
            Op::Read => Metadata::new_from_path(&p).map(|_| ()),
            _ => mutating_path(op, &p, &meta),
        })
    });
    let (res, seen) = match res {
        Out::Ok(x) => x,
        Out::Panic(_) => {
            c.count("panicked");
            return;
        }
    };
    note_io(c, &seen);
    if seen.failed > 0 {
        c.count(if res.is_ok() { "fault_survived" } else { "fault_reported" });
    }
    let what = format!("{} by path ({:?})", what, f);
    match res {
        Err(e) => {
            c.eval(true, hash_bytes(&img.bytes) ^ op as u64);
            c.count(if op == Op::Read { "read.failed" } else { "path.failed" });
            c.count(&format!("failed.{:?}.{}", op, kn));
            if let Some(d) = y.changes(None) {
                c.violate(format!("failed {:?} of a {} changes the file", op, kn), format!("{}: {}: {}", what, e, d), &blobs);
            }
        }
        Ok(()) => {
            c.count(if op == Op::Read { "read.succeeded" } else { "path.succeeded" });
            c.eval(op == Op::Read, hash_bytes(&img.bytes));
            let ex = if op == Op::Read { None } else { Some(p.as_path()) };
            if let Some(d) = y.changes(ex) {
                c.violate(format!("{:?} of a {} changes {}", op, kn, if op == Op::Read { "files" } else { "other files" }), format!("{}: {}", what, d), &blobs);
            }
        }
    }
    if op == Op::Read {
        c.count("reads_observed");
        if let Some(w) = seen.write_opens().first() {
            c.violate("reading opens a file for writing", format!("{}: {}", what, w), &blobs);
        }
        if seen.writes > 0 || !seen.other.is_empty() {
            c.violate("reading writes, renames or removes a file", format!("{}: {} writes, {:?}", what, seen.writes, seen.other), &blobs);
        }
    }
}
