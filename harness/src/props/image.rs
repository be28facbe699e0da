//! Image-level checks: C03 (round trip), C04 (nothing else changes), C05
//! (clear), C06 (well-formed output), C11 (repeated writes), C21 (existing
//! EXIF is found).
use crate::cont::{self, Img, Kind, Opts, Parsed, KINDS};
use crate::exif::*;
use crate::gen::*;
use crate::props::block::classify;
use crate::rng::*;
use crate::run::*;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use std::io::Error;

pub fn props() -> Vec<Prop> {
    let img = "images of the six formats come from structure generators (segment/chunk/box order, unknown parts, fill bytes, several scans, extents, construction methods, trailing data ...) and from the repository's sample images";
    let _ = img;
    vec![
        Prop {
            id: "C03",
            rule: "a case writes a generated metadata object into a generated or sample image (with or without prior EXIF, vector or path API), reads it back through the library and through the independent decoder, and compares every tag with the object written; non-trivial: at least two tags or an out-of-line value; distinct by image and encoded metadata",
            assumptions: &["writing may fail only for EXIF that exceeds the 64 KiB JPEG segment or a TIFF without its mandatory tags", "HEIF: an EXIF item in the idat box or in several extents may be refused"],
            quick: 300_000,
            thorough: 12_000_000,
            run: c03,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C04",
            rule: "a case writes generated metadata into a generated or sample non-TIFF image and compares all non-EXIF parts (identity, order, content), as seen by an independent container parser, before and after; non-trivial: at least two parts; distinct by image bytes",
            assumptions: &["TIFF is covered by C14", "PNG XMP packets are covered by C16"],
            quick: 300_000,
            thorough: 12_000_000,
            run: c04,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C05",
            rule: "a case clears a generated or sample image carrying zero, one or several EXIF carriers (optionally after a library write), scans the result for carriers with an independent parser, compares all other parts, and clears again; non-trivial: the image carried EXIF; distinct by image bytes",
            assumptions: &["for TIFF and HEIF the tags needed to interpret the image may remain"],
            quick: 300_000,
            thorough: 12_000_000,
            run: c05,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C06",
            rule: "a case writes to or clears a generated or sample image (or does both, several times, through either API) and validates the result with strict independent container and TIFF parsers; non-trivial: the operation changed the image; distinct by result bytes",
            assumptions: &["the input image is accepted by the same strict parser"],
            quick: 250_000,
            thorough: 10_000_000,
            run: c06,
            min_nontrivial: 4_000,
        },
        Prop {
            id: "C11",
            rule: "a case is a history of 2 to 7 writes and clears with metadata of very different sizes on one image; after each step the buffer must carry exactly one carrier with the last written tags (none after a clear) and equal, byte for byte, the cleared original with only that write applied; non-trivial: at least two writes; distinct by history result",
            assumptions: &["for HEIF and TIFF, whose clear keeps a carrier, the comparison is with the last write applied to the previous state's cleared form, by carrier content and length"],
            quick: 120_000,
            thorough: 4_800_000,
            run: c11,
            min_nontrivial: 2_000,
        },
        Prop {
            id: "C21",
            rule: "a case reads a generated image with an EXIF carrier in a random legal position and representation (or with none, but with look-alikes) and compares the tags with an independent decoding of the embedded block; non-trivial: carrier present; distinct by image bytes",
            assumptions: &["an image without EXIF may be reported as an error or as an empty object"],
            quick: 400_000,
            thorough: 16_000_000,
            run: c21,
            min_nontrivial: 5_000,
        },
    ]
}

// ------------------------------------------------------------- operations
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    Vec,
    Path,
}
pub struct Res {
    pub err: Option<Error>,
    pub bytes: Vec<u8>,
}
pub fn file_of(c: &Ctx, k: Kind, ext: &str) -> std::path::PathBuf {
    let _ = k;
    c.tmp(&format!("img.{}", ext))
}
pub fn ext_for(r: &mut Rng, k: Kind) -> &'static str {
    r.pick(k.exts())
}
fn generic(c: &mut Ctx, label: &str, api: Api, k: Kind, ext: &str, b: &[u8], extra: usize, fv: impl FnOnce(&mut Vec<u8>) -> Result<(), Error>, fp: impl FnOnce(&std::path::Path) -> Result<(), Error>) -> Out<Res> {
    match api {
        Api::Vec => {
            let mut v = b.to_vec();
            match c.call(label, b.len() + extra, || fv(&mut v)) {
                Out::Panic(p) => Out::Panic(p),
                Out::Ok(r) => Out::Ok(Res { err: r.err(), bytes: v }),
            }
        }
        Api::Path => {
            let p = file_of(c, k, ext);
            std::fs::write(&p, b).unwrap();
            let o = c.call(label, b.len() + extra, || fp(&p));
            let bytes = std::fs::read(&p).unwrap_or_default();
            std::fs::remove_file(&p).ok();
            match o {
                Out::Panic(x) => Out::Panic(x),
                Out::Ok(r) => Out::Ok(Res { err: r.err(), bytes }),
            }
        }
    }
}
pub fn do_write(c: &mut Ctx, api: Api, k: Kind, ext: &str, b: &[u8], m: &Metadata) -> Out<Res> {
    generic(c, &format!("write {} {:?}", k.name(), api), api, k, ext, b, 1 << 20, |v| m.write_to_vec(v, k.ft()), |p| m.write_to_file(p))
}
pub fn do_clear(c: &mut Ctx, api: Api, k: Kind, ext: &str, b: &[u8]) -> Out<Res> {
    generic(c, &format!("clear {} {:?}", k.name(), api), api, k, ext, b, 0, |v| Metadata::clear_metadata(v, k.ft()), |p| Metadata::file_clear_metadata(p))
}
pub fn do_read(c: &mut Ctx, api: Api, k: Kind, ext: &str, b: &[u8]) -> Out<Result<Metadata, Error>> {
    match api {
        Api::Vec => {
            let v = b.to_vec();
            c.call(&format!("read {} Vec", k.name()), b.len(), || Metadata::new_from_vec(&v, k.ft()))
        }
        Api::Path => {
            let p = file_of(c, k, ext);
            std::fs::write(&p, b).unwrap();
            let o = c.call(&format!("read {} Path", k.name()), b.len(), || Metadata::new_from_path(&p));
            std::fs::remove_file(&p).ok();
            o
        }
    }
}
pub fn pick_api(r: &mut Rng) -> Api {
    if r.chance(1, 4) {
        Api::Path
    } else {
        Api::Vec
    }
}
pub fn pick_kind(r: &mut Rng, tiff: bool) -> Kind {
    // development aid: concentrate on one container
    if let Ok(n) = std::env::var("LX_KIND") {
        if let Some(k) = KINDS.iter().find(|k| k.name() == n) {
            return *k;
        }
    }
    if tiff {
        *r.pick(&KINDS)
    } else {
        *r.pick(&KINDS[..5])
    }
}
pub struct Sample {
    pub kind: Kind,
    pub name: String,
    pub bytes: Vec<u8>,
}
/// sample images of the corpus that are well-formed for the strict parsers
pub fn samples() -> &'static Vec<Sample> {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<Sample>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        let dir = std::path::PathBuf::from(std::env::var("LX_VERIF").unwrap_or("/verif".into())).join("corpus");
        let mut names: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            let b = match std::fs::read(&p) {
                Ok(b) => b,
                _ => continue,
            };
            if b.len() > 400_000 {
                continue;
            }
            for k in KINDS {
                if cont::parse(k, &b).is_ok() {
                    v.push(Sample { kind: k, name: p.file_name().unwrap().to_string_lossy().to_string(), bytes: b });
                    break;
                }
            }
        }
        v
    })
}
pub fn rand_blocks(r: &mut Rng, k: Kind, many: bool) -> Vec<Vec<u8>> {
    let n = match r.below(6) {
        0 | 1 => 0,
        2..=4 => 1,
        _ if many && matches!(k, Kind::Jpeg | Kind::Png | Kind::Webp | Kind::Jxl | Kind::Heif) => r.range(2, 3),
        _ => 1,
    };
    // carriers whose length does not fit 16 bits
    let large = k != Kind::Jpeg && r.chance(1, 60);
    (0..n)
        .map(|_| {
            let mut b = small_block(r);
            if large && r.chance(2, 3) {
                let n = r.range(56_000, 140_000);
                b.extend(r.bytes(n));
            }
            b
        })
        .collect()
}
pub fn rand_image(r: &mut Rng, k: Kind, blocks: &[Vec<u8>]) -> Img {
    let bulk = if r.chance(1, 15) { 140_000 } else { 3_000 };
    cont::gen(k, r, &Opts { exif: blocks.to_vec(), bulk })
}
/// generated (mostly) or sample image
pub fn any_image(r: &mut Rng, tiff: bool, many: bool) -> Img {
    if r.chance(1, 30) {
        let s = r.pick(samples());
        let wanted = std::env::var("LX_KIND").map_or(true, |n| n == s.kind.name());
        if wanted && (tiff || s.kind != Kind::Tiff) {
            return Img { kind: s.kind, bytes: s.bytes.clone(), note: vec!["sample"] };
        }
    }
    let k = pick_kind(r, tiff);
    let mut bl = rand_blocks(r, k, many);
    let broken = k != Kind::Tiff && !bl.is_empty() && r.chance(1, 15);
    if broken {
        // a carrier whose content is no EXIF: still to be replaced or removed
        let i = r.below(bl.len());
        bl[i] = match r.below(4) {
            0 => vec![],
            1 => r.pick(&[&b"II*\0"[..], b"MM\0*\0\0\0\x08", b"II*\0\xff\xff\xff\xff", b"http", b"\0"]).to_vec(),
            2 => {
                let n = r.range(1, 40);
                r.bytes(n)
            }
            _ => {
                let n = r.below(bl[i].len() + 1);
                bl[i][..n].to_vec()
            }
        };
    }
    let mut i = rand_image(r, k, &bl);
    if broken {
        i.note.push("broken-exif");
    }
    i
}
/// metadata fit for the given container
pub fn meta_for(r: &mut Rng, k: Kind) -> GenMeta {
    let big = r.chance(1, 25);
    let o = GenOpts { max_tags: if big { 60 } else { 12 }, max_value: if big { 30_000 } else { 400 }, thumb: r.chance(1, 4), ..Default::default() };
    let mut g = gen_meta(r, &o);
    if r.chance(1, if k == Kind::Jpeg { 300 } else { 100 }) {
        // lengths that do not fit 16 bits
        let n = if k != Kind::Jpeg && r.chance(1, 20) { r.range(1_000_000, 1_200_000) } else { r.range(60_000, 150_000) };
        let v = Val { fmt: 7, data: r.bytes(n) };
        g.meta.set_tag(make_tag(G_EXIF, 0x927c, &v));
        g.model.set((0, G_EXIF, 0x927c), v);
    }
    if k == Kind::Tiff {
        let nrs: Vec<u32> = {
            let mut v: Vec<u32> = g.meta.get_ifds().iter().map(|i| i.get_generic_ifd_nr()).collect();
            v.push(0);
            v.sort();
            v.dedup();
            v
        };
        for n in nrs {
            add_tiff_required(r, &mut g, n);
        }
    }
    g
}
pub fn limit_error(k: Kind, block: usize, m: &GenMeta) -> bool {
    match k {
        Kind::Jpeg => block + 8 > 65535,
        Kind::Tiff => m.model.tags.is_empty(),
        _ => false,
    }
}
/// HEIF files that keep their EXIF item in several extents or in the idat box
/// are announced as unsupported by the library's error messages
pub fn unsupported(i: &Img) -> bool {
    i.kind == Kind::Heif && (i.note.contains(&"exif-multi-extent") || i.note.contains(&"exif-in-idat"))
}
pub fn describe(i: &Img, api: Api) -> String {
    format!("{} ({} bytes, {:?}, {:?})", i.kind.name(), i.bytes.len(), i.note, api)
}
pub fn feature(i: &Img) -> String {
    let mut n = i.note.clone();
    n.sort();
    n.dedup();
    n.join("+")
}
pub fn count_img(c: &mut Ctx, i: &Img) {
    c.count(&format!("kind.{}", i.kind.name()));
    let mut n = i.note.clone();
    n.sort();
    n.dedup();
    for x in n {
        c.count(&format!("feature.{}.{}", i.kind.name(), x));
    }
}
fn err_class(e: &Error) -> String {
    classify(&e.to_string())
}
/// write that must succeed; None after reporting
fn must_write(c: &mut Ctx, api: Api, img: &Img, ext: &str, g: &GenMeta, block: usize) -> Option<Vec<u8>> {
    match do_write(c, api, img.kind, ext, &img.bytes, &g.meta) {
        Out::Ok(Res { err: None, bytes }) => Some(bytes),
        Out::Ok(Res { err: Some(e), .. }) => {
            if limit_error(img.kind, block, g) || unsupported(img) {
                c.count("documented_limit");
            } else {
                c.violate(format!("write to a well-formed {} fails: {}", img.kind.name(), err_class(&e)), format!("{}: {} [metadata {}]", describe(img, api), e, g.model.describe()), &[("image", &img.bytes)]);
            }
            None
        }
        Out::Panic(p) => {
            c.violate(format!("write {} panics: {}", img.kind.name(), norm_panic(&p)), format!("{}: {} [metadata {}]", describe(img, api), p, g.model.describe()), &[("image", &img.bytes)]);
            None
        }
    }
}
fn must_clear(c: &mut Ctx, api: Api, img: &Img, ext: &str) -> Option<Vec<u8>> {
    match do_clear(c, api, img.kind, ext, &img.bytes) {
        Out::Ok(Res { err: None, bytes }) => Some(bytes),
        Out::Ok(Res { err: Some(e), .. }) => {
            if unsupported(img) || img.kind == Kind::Tiff && img.note.contains(&"sample") && e.to_string().contains("TIFF requires") {
                c.count("documented_limit");
                return None;
            }
            c.violate(format!("clear of a well-formed {} fails: {}", img.kind.name(), err_class(&e)), format!("{}: {}", describe(img, api), e), &[("image", &img.bytes)]);
            None
        }
        Out::Panic(p) => {
            c.violate(format!("clear {} panics: {}", img.kind.name(), norm_panic(&p)), format!("{}: {}", describe(img, api), p), &[("image", &img.bytes)]);
            None
        }
    }
}
/// the generators and strict parsers must agree; anything else is a harness bug
fn parse_in(i: &Img) -> Parsed {
    match cont::parse_input(i.kind, &i.bytes) {
        Ok(p) => p,
        Err(e) => panic!("generated {} image rejected by the strict parser: {} {:?}", i.kind.name(), e, i.note),
    }
}
pub fn carrier_model(b: &[u8]) -> Result<Model, String> {
    let t = parse(b)?;
    ref_model(b, &t)
}
fn encoded(c: &mut Ctx, g: &GenMeta) -> Option<Vec<u8>> {
    match c.call("encode", 1 << 20, || g.meta.encode()) {
        Out::Ok(Ok(b)) => Some(b),
        _ => {
            c.count("encode_failed"); // C07's business
            None
        }
    }
}

// ------------------------------------------------------------------- C03
/// a PNG raw profile states its length in decimal, padded to eight digits:
/// metadata whose length needs more
fn c03_huge(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = cont::gen(Kind::Png, &mut r, &Opts { exif: vec![], bulk: 100 });
    let n = 100_000_000 + r.below(1000);
    let mut data = vec![7u8; n];
    for _ in 0..1000 {
        let i = r.below(n);
        data[i] = r.u8();
    }
    let mut m = Metadata::new();
    m.set_tag(little_exif::exif_tag::ExifTag::MakerNote(data.clone()));
    let mut out = img.bytes.clone();
    c.eval(true, hash_bytes(&img.bytes));
    match c.call("write png huge", n, || m.write_to_vec(&mut out, Kind::Png.ft())) {
        Out::Ok(Ok(())) => (),
        Out::Ok(Err(_)) => return c.count("documented_limit"),
        Out::Panic(p) => return c.violate(format!("write png panics: {}", norm_panic(&p)), format!("metadata of {} bytes: {}", n, p), &[("image", &img.bytes)]),
    }
    drop(m);
    c.count("writes_of_100_mb");
    let blobs: [(&str, &[u8]); 2] = [("image", &img.bytes), ("result", &out)];
    match c.call("read png huge", n, || Metadata::new_from_vec(&out, Kind::Png.ft())) {
        Out::Ok(Ok(m)) => {
            let ok = m.into_iter().count() == 1 && m.into_iter().all(|t| matches!(t, little_exif::exif_tag::ExifTag::MakerNote(d) if *d == data));
            if !ok {
                c.violate("png read back differs: huge metadata".to_string(), format!("metadata of {} bytes", n), &blobs);
            }
        }
        Out::Ok(Err(e)) => c.violate(format!("png unreadable after write: {}", err_class(&e)), format!("metadata of {} bytes: {}", n, e), &blobs),
        Out::Panic(p) => c.violate(format!("png read after write panics: {}", norm_panic(&p)), format!("metadata of {} bytes: {}", n, p), &blobs),
    }
}
fn c03(c: &mut Ctx) {
    if c.case == 0 {
        return c03_huge(c);
    }
    let mut r = c.rng.clone();
    let img = any_image(&mut r, true, true);
    let api = pick_api(&mut r);
    let ext = ext_for(&mut r, img.kind);
    let g = meta_for(&mut r, img.kind);
    let enc = match encoded(c, &g) {
        Some(e) => e,
        None => return,
    };
    count_img(c, &img);
    let expect = written(&g.model);
    let nt = expect.tags.len() > 1 || expect.tags.values().any(|v| v[0].data.len() > 4);
    c.eval(nt, hash_bytes(&img.bytes) ^ hash_bytes(&enc).rotate_left(17));
    c.add("tags_written", expect.tags.len() as u64);
    let out = match must_write(c, api, &img, ext, &g, enc.len()) {
        Some(b) => b,
        None => return,
    };
    c.count("writes");
    c.sample(|| format!("{} <- {}", describe(&img, api), expect.describe()));
    let kn = img.kind.name();
    let blobs: [(&str, &[u8]); 2] = [("image", &img.bytes), ("result", &out)];
    for rapi in if r.chance(1, 3) { vec![Api::Vec, Api::Path] } else { vec![api] } {
        match do_read(c, rapi, img.kind, ext, &out) {
            Out::Ok(Ok(m)) => {
                let got = model_of(&m);
                c.add("tags_read_back", got.tags.len() as u64);
                if let Some(d) = expect.diff(&got, "written", "read back") {
                    c.violate(format!("{} read back differs: {}", kn, classify(&d)), format!("{} {:?}: {}", describe(&img, api), rapi, d), &blobs);
                }
            }
            Out::Ok(Err(_)) if expect.tags.is_empty() && img.kind == Kind::Heif => c.count("empty_heif_item"),
            Out::Ok(Err(e)) => {
                c.violate(format!("{} unreadable after write: {}", kn, err_class(&e)), format!("{} {:?}: {} [metadata {}]", describe(&img, api), rapi, e, g.model.describe()), &blobs);
            }
            Out::Panic(p) => c.violate(format!("{} read after write panics: {}", kn, norm_panic(&p)), format!("{}: {}", describe(&img, api), p), &blobs),
        }
    }
    // independent view of the carrier
    match cont::parse(img.kind, &out) {
        Ok(p) => {
            if p.carriers.len() != 1 && !(expect.tags.is_empty() && img.kind == Kind::Heif && p.carriers.is_empty()) {
                c.violate(format!("{} has {} EXIF carriers after a write", kn, p.carriers.len()), describe(&img, api), &blobs);
                return;
            }
            if expect.tags.is_empty() {
                return;
            }
            let raw = &p.carriers[0];
            // the PNG raw profile announces and ends with one extra zero byte
            match carrier_model(raw) {
                Ok(m) => {
                    if let Some(d) = expect.diff(&m, "written", "embedded") {
                        c.violate(format!("{} embedded EXIF differs: {}", kn, classify(&d)), format!("{}: {}", describe(&img, api), d), &blobs);
                    }
                }
                Err(e) => c.violate(format!("{} embedded EXIF not decodable: {}", kn, classify(&e)), format!("{}: {}", describe(&img, api), e), &blobs),
            }
        }
        Err(_) => c.count("malformed_result"), // C06's business
    }
}

// ------------------------------------------------------------------- C04
fn c04(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = any_image(&mut r, false, true);
    let before = parse_in(&img);
    let api = pick_api(&mut r);
    let ext = ext_for(&mut r, img.kind);
    let g = meta_for(&mut r, img.kind);
    count_img(c, &img);
    c.eval(before.parts.len() > 1, hash_bytes(&img.bytes));
    c.add("parts_compared", before.parts.len() as u64);
    let out = match do_write(c, api, img.kind, ext, &img.bytes, &g.meta) {
        Out::Ok(Res { err: None, bytes }) => bytes,
        _ => {
            c.count("write_failed"); // C02, C03
            return;
        }
    };
    c.count("writes");
    c.sample(|| format!("{}: parts {}", describe(&img, api), before.parts.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join(" ")));
    compare_parts(c, "write", &img, api, &before, &out);
}
pub fn compare_parts(c: &mut Ctx, op: &str, img: &Img, api: Api, before: &Parsed, out: &[u8]) -> Option<Parsed> {
    match cont::parse(img.kind, out) {
        Ok(after) => {
            let (a, b) = cont::comparable(img.kind, before, &after);
            if let Some(d) = cont::part_diff(&a, &b) {
                c.violate(format!("{} {}: {}", img.kind.name(), op, cont::part_class(&d)), format!("{}: {}", describe(img, api), d), &[("image", &img.bytes), ("result", out)]);
            }
            Some(after)
        }
        Err(e) => {
            c.violate(format!("{} {}: result not parsable: {}", img.kind.name(), op, classify(&e)), format!("{}: {}", describe(img, api), e), &[("image", &img.bytes), ("result", out)]);
            None
        }
    }
}

// ------------------------------------------------------------------- C05
const HEIF_KEEP: [u16; 4] = [0x0112, 0x011a, 0x011b, 0x0128];
pub fn tiff_keep(tag: u16) -> bool {
    [0x0100, 0x0101, 0x0102, 0x0103, 0x0106, 0x0111, 0x0115, 0x0116, 0x0117, 0x011a, 0x011b, 0x0128, 0x0140, 0x0201, 0x0202].contains(&tag)
        || super::tiffprop::DECODE.iter().any(|d| d.0 == tag)
        // describe colours or orientation of the samples
        || [0x00ff, 0x0112, 0x012d, 0x013e, 0x013f, 0x014c, 0x014e].contains(&tag)
}
fn c05(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut img = any_image(&mut r, true, true);
    let api = pick_api(&mut r);
    let ext = ext_for(&mut r, img.kind);
    if r.chance(1, 4) {
        let g = meta_for(&mut r, img.kind);
        if let Out::Ok(Res { err: None, bytes }) = do_write(c, Api::Vec, img.kind, ext, &img.bytes, &g.meta) {
            if cont::parse(img.kind, &bytes).is_ok() {
                img.bytes = bytes;
                img.note.push("written");
            }
        }
    }
    let before = parse_in(&img);
    count_img(c, &img);
    c.count(&format!("carriers.{}.{}", img.kind.name(), before.carriers.len()));
    c.eval(before.has_exif(), hash_bytes(&img.bytes));
    let out = match must_clear(c, api, &img, ext) {
        Some(b) => b,
        None => return,
    };
    c.count("clears");
    c.sample(|| format!("{}: {} carriers, {} other parts", describe(&img, api), before.carriers.len(), before.parts.len()));
    let kn = img.kind.name();
    let blobs: [(&str, &[u8]); 2] = [("image", &img.bytes), ("result", &out)];
    let after = match img.kind {
        Kind::Tiff => cont::parse(img.kind, &out).ok(),
        _ => compare_parts(c, "clear", &img, api, &before, &out),
    };
    let after = match after {
        Some(a) => a,
        None => {
            if img.kind == Kind::Tiff {
                c.violate("tiff clear: result not parsable", describe(&img, api), &blobs);
            }
            return;
        }
    };
    match img.kind {
        Kind::Tiff | Kind::Heif => {
            let keep: fn(u16) -> bool = if img.kind == Kind::Tiff { tiff_keep } else { |t| HEIF_KEEP.contains(&t) };
            for a in &after.carriers {
                match carrier_model(a) {
                    Ok(m) => {
                        if let Some(k) = m.tags.keys().find(|k| k.1 != G_IFD || !keep(k.2)) {
                            c.violate(format!("{} clear leaves EXIF tags behind", kn), format!("{}: {} remains", describe(&img, api), show_key(k)), &blobs);
                        }
                        // and what stays is what was there
                        let olds: Vec<_> = before.carriers.iter().map(|b| carrier_model(b)).collect();
                        if img.kind == Kind::Heif && olds.iter().all(|o| o.is_ok()) {
                            c.add("kept_tags", m.tags.len() as u64);
                            if let Some((k, _)) = m.tags.iter().find(|(k, v)| !olds.iter().any(|o| o.as_ref().unwrap().tags.get(k) == Some(v))) {
                                c.violate(format!("{} clear changes a tag it keeps", kn), format!("{}: {}", describe(&img, api), show_key(k)), &blobs);
                            }
                        }
                    }
                    Err(e) => c.violate(format!("{} clear leaves an undecodable carrier", kn), format!("{}: {}", describe(&img, api), e), &blobs),
                }
            }
        }
        _ => {
            if after.has_exif() {
                c.violate(format!("{} clear leaves {} EXIF carrier(s)", kn, after.carriers.len().min(2)), format!("{}: {} carriers before, {} after", describe(&img, api), before.carriers.len(), after.carriers.len()), &blobs);
            }
            if let Out::Ok(Ok(m)) = do_read(c, Api::Vec, img.kind, ext, &out) {
                let m = model_of(&m);
                if !m.tags.is_empty() {
                    c.violate(format!("{} still yields tags after clear", kn), format!("{}: {}", describe(&img, api), m.describe()), &blobs);
                }
            }
        }
    }
    if !before.has_exif() && before.empty_carriers == 0 && out != img.bytes && img.kind != Kind::Tiff {
        let xmp = before.parts.iter().any(|p| p.name.contains("xmp"));
        if !xmp {
            c.violate(format!("{} without EXIF is changed by clear", kn), describe(&img, api), &blobs);
        }
    }
    // idempotence
    let img2 = Img { kind: img.kind, bytes: out.clone(), note: img.note.clone() };
    if let Some(o2) = must_clear(c, api, &img2, ext) {
        c.count("second_clears");
        if o2 != out {
            c.violate(format!("{} second clear changes the image again", kn), format!("{}: {} bytes, then {}", describe(&img, api), out.len(), o2.len()), &[("image", &img.bytes), ("once", &out), ("twice", &o2)]);
        }
    }
}

// ------------------------------------------------------------------- C06
fn c06(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = any_image(&mut r, true, true);
    parse_in(&img);
    count_img(c, &img);
    let ext = ext_for(&mut r, img.kind);
    let mut cur = img.clone();
    let steps = r.range(1, 3);
    let mut h = 0u64;
    let mut changed = false;
    for _ in 0..steps {
        let api = pick_api(&mut r);
        let write = r.chance(2, 3);
        let res = if write {
            let g = meta_for(&mut r, img.kind);
            do_write(c, api, cur.kind, ext, &cur.bytes, &g.meta)
        } else {
            do_clear(c, api, cur.kind, ext, &cur.bytes)
        };
        let out = match res {
            Out::Ok(Res { err: None, bytes }) => bytes,
            _ => {
                c.count("operation_failed");
                break;
            }
        };
        let op = if write { "write" } else { "clear" };
        c.count(&format!("{}.{}.{:?}", op, img.kind.name(), api));
        changed |= out != cur.bytes;
        h = h.rotate_left(7) ^ hash_bytes(&out);
        let kn = img.kind.name();
        let blobs: [(&str, &[u8]); 2] = [("image", &cur.bytes), ("result", &out)];
        match cont::parse(img.kind, &out) {
            Ok(p) => {
                c.count("validated");
                for a in &p.carriers {
                    if write && img.kind != Kind::Tiff || img.kind == Kind::Tiff {
                        if a.len() > 9 && a[4..8] != [0; 4] {
                            // PNG raw profiles end with a terminating zero byte, which is outside the structure
                            if let Err(e) = validate(a) {
                                c.violate(format!("{} {}: EXIF block invalid: {}", kn, op, classify(&e)), format!("{}: {}", describe(&cur, api), e), &blobs);
                            }
                        }
                    }
                }
            }
            Err(e) => {
                c.violate(format!("{} malformed after {}: {}", kn, op, classify(&e)), format!("{}: {}", describe(&cur, api), e), &blobs);
                break;
            }
        }
        cur.bytes = out;
    }
    c.eval(changed, h);
    c.sample(|| format!("{} {} steps -> {} bytes", describe(&img, Api::Vec), steps, cur.bytes.len()));
}

// ------------------------------------------------------------------- C11
fn c11(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = any_image(&mut r, true, true);
    let ext = ext_for(&mut r, img.kind);
    count_img(c, &img);
    let kn = img.kind.name();
    let n = r.range(2, 7);
    let mut cur = img.clone();
    let mut last: Option<GenMeta> = None;
    let mut writes = 0;
    let mut h = hash_bytes(&img.bytes);
    let mut log = vec![];
    // reference: the cleared original
    let base = match do_clear(c, Api::Vec, img.kind, ext, &img.bytes) {
        Out::Ok(Res { err: None, bytes }) => bytes,
        _ => {
            c.count("clear_failed");
            return;
        }
    };
    for _ in 0..n {
        let api = pick_api(&mut r);
        let op = r.below(4);
        let out = if op == 0 {
            log.push("clear".to_string());
            match do_clear(c, api, img.kind, ext, &cur.bytes) {
                Out::Ok(Res { err: None, bytes }) => {
                    last = None;
                    bytes
                }
                _ => {
                    c.count("operation_failed");
                    break;
                }
            }
        } else {
            let same = op == 1 && last.is_some();
            // the metadata written last, edited further
            let edited = !same && last.is_some() && r.chance(1, 3);
            if edited {
                let g = last.as_mut().unwrap();
                for _ in 0..r.range(1, 4) {
                    let keys: Vec<_> = g.model.tags.keys().filter(|k| k.1 != G_IFD).cloned().collect();
                    if !keys.is_empty() && r.chance(1, 2) {
                        let k = *r.pick(&keys);
                        g.meta.remove_tag_by_hex_group(k.2, grp(k.1));
                        g.model.tags.retain(|x, _| !(x.1 == k.1 && x.2 == k.2));
                    } else {
                        let (gr, t, v) = rand_tag(&mut r, true, true);
                        if gr != G_IFD {
                            g.meta.set_tag(make_tag(gr, t, &v));
                            g.model.set((0, gr, t), v);
                        }
                    }
                }
                c.count("edited_between_writes");
            } else if !same {
                last = Some(meta_for(&mut r, img.kind));
            }
            let g = last.as_ref().unwrap();
            log.push(format!("write {} tags{}", g.model.tags.len(), if same { " again" } else if edited { " after edits" } else { "" }));
            match do_write(c, api, img.kind, ext, &cur.bytes, &g.meta) {
                Out::Ok(Res { err: None, bytes }) => {
                    writes += 1;
                    if same && bytes != cur.bytes {
                        c.violate(
                            format!("{} changes when the same metadata is written again", kn),
                            format!("{} after {:?}: {} bytes become {}", describe(&img, api), log, cur.bytes.len(), bytes.len()),
                            &[("image", &img.bytes), ("before", &cur.bytes), ("after", &bytes)],
                        );
                    }
                    bytes
                }
                _ => {
                    c.count("operation_failed");
                    break;
                }
            }
        };
        c.count("steps");
        cur.bytes = out;
        h = h.rotate_left(5) ^ hash_bytes(&cur.bytes);
        let blobs: [(&str, &[u8]); 3] = [("image", &img.bytes), ("result", &cur.bytes), ("cleared", &base)];
        // content
        match cont::parse(img.kind, &cur.bytes) {
            Ok(p) => match &last {
                Some(g) => {
                    if p.carriers.len() != 1 && !(written(&g.model).tags.is_empty() && img.kind == Kind::Heif && p.carriers.is_empty()) {
                        c.violate(format!("{} has {} EXIF carriers after a write", kn, p.carriers.len()), format!("{} after {:?}", describe(&img, api), log), &blobs);
                        break;
                    }
                    let e = written(&g.model);
                    if !e.tags.is_empty() {
                        let d = match carrier_model(&p.carriers[0]) {
                            Ok(m) => e.diff(&m, "last written", "embedded"),
                            Err(e) => Some(e),
                        };
                        if let Some(d) = d {
                            c.violate(format!("{} does not carry the last write: {}", kn, classify(&d)), format!("{} after {:?}: {}", describe(&img, api), log, d), &blobs);
                        }
                    }
                }
                None => {
                    if p.has_exif() && !matches!(img.kind, Kind::Heif | Kind::Tiff) {
                        c.violate(format!("{} carries EXIF after a clear", kn), format!("{} after {:?}", describe(&img, api), log), &blobs);
                    }
                }
            },
            Err(_) => c.count("malformed_result"),
        }
        // no dependence on history
        let want = match &last {
            None if matches!(img.kind, Kind::Heif | Kind::Tiff) => None, // what a clear keeps depends on the last write
            None if writes == 0 => Some(base.clone()),
            // a write may have to convert the image to a form that can hold EXIF
            None => match do_write(c, Api::Vec, img.kind, ext, &base, &meta_for(&mut r, img.kind).meta) {
                Out::Ok(Res { err: None, bytes }) => match do_clear(c, Api::Vec, img.kind, ext, &bytes) {
                    Out::Ok(Res { err: None, bytes }) => Some(bytes),
                    _ => None,
                },
                _ => None,
            },
            Some(g) => match do_write(c, Api::Vec, img.kind, ext, &base, &g.meta) {
                Out::Ok(Res { err: None, bytes }) => Some(bytes),
                _ => None,
            },
        };
        if let Some(w) = want {
            c.count("compared_with_single_write");
            // how iloc splits locations into base and offset is immaterial
            let same = w == cur.bytes
                || img.kind == Kind::Heif && w.len() == cur.bytes.len() && match (cont::parse(img.kind, &w), cont::parse(img.kind, &cur.bytes)) {
                    (Ok(a), Ok(b)) => a.parts == b.parts && a.carriers == b.carriers,
                    _ => false,
                };
            if !same {
                c.violate(
                    format!("{} depends on earlier writes", kn),
                    format!("{} after {:?}: {} bytes, but {} bytes when only the last step is applied to the cleared image", describe(&img, api), log, cur.bytes.len(), w.len()),
                    &blobs,
                );
                break;
            }
        }
    }
    c.eval(writes >= 2, h);
    c.add("writes", writes);
    c.sample(|| format!("{}: {:?}", describe(&img, Api::Vec), log));
}

// ------------------------------------------------------------------- C21
fn c21(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let k = pick_kind(&mut r, true);
    let api = pick_api(&mut r);
    let ext = ext_for(&mut r, k);
    let blocks = rand_blocks(&mut r, k, true);
    let img = rand_image(&mut r, k, &blocks);
    let p = parse_in(&img);
    count_img(c, &img);
    c.eval(p.has_exif(), hash_bytes(&img.bytes));
    c.count(if p.has_exif() { "with_exif" } else { "without_exif" });
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    let kn = k.name();
    let res = do_read(c, api, k, ext, &img.bytes);
    c.sample(|| format!("{}: {} carriers", describe(&img, api), p.carriers.len()));
    match res {
        Out::Panic(x) => c.violate(format!("{} read panics: {}", kn, norm_panic(&x)), format!("{}: {}", describe(&img, api), x), &blobs),
        Out::Ok(Err(e)) => {
            c.count("read_error");
            if unsupported(&img) {
                c.count("documented_limit");
            } else if p.has_exif() {
                c.violate(format!("{} existing EXIF not read: {}", kn, err_class(&e)), format!("{}: {}", describe(&img, api), e), &blobs);
            }
        }
        Out::Ok(Ok(m)) => {
            let got = model_of(&m);
            if !p.has_exif() {
                if !got.tags.is_empty() {
                    c.violate(format!("{} without EXIF yields tags", kn), format!("{}: {}", describe(&img, api), got.describe()), &blobs);
                }
                return;
            }
            // any one of the carriers, entirely
            let mut why = String::new();
            for b in &p.carriers {
                match carrier_model(b) {
                    Ok(want) => match want.diff(&got, "embedded", "read") {
                        None => {
                            c.count("matched");
                            return;
                        }
                        Some(d) => why = d,
                    },
                    Err(e) => panic!("generated block not decodable: {}", e),
                }
            }
            c.violate(format!("{} EXIF read differs from the embedded block: {}", kn, classify(&why)), format!("{}: {}", describe(&img, api), why), &blobs);
        }
    }
}
#[allow(dead_code)]
pub fn ft_of(k: Kind) -> FileExtension {
    k.ft()
}
