//! C01 and C02: hostile inputs never crash, hang or exhaust memory.
use crate::cont::KINDS;
use crate::exif::*;
use crate::gen::*;
use crate::mutate::*;
use crate::props::image::*;
use crate::rng::*;
use crate::run::*;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension;
use little_exif::ifd::{ExifTagGroup, ImageFileDirectory};
use little_exif::metadata::Metadata;
use std::io::Error;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a case reads one corrupted, truncated, spliced, random or intact image (blind and structure-aware mutations at length fields, checksums repaired, corrupted EXIF blocks inside intact containers) with the right or a wrong claimed type, through the vector and path APIs, then uses every accessor and iterator of a decoded object and re-encodes it; the monitors are overflow and debug assertions of the library build, panic capture, stack overflow and signal detection, an allocation budget (192 MiB + 400 x input) and a CPU-time limit per call; non-trivial: the input is not accepted unchanged as generated; distinct by input bytes",
            assumptions: &["the decompressed size of a file's own compressed metadata is allowed to the decoder", "inputs up to some hundred KiB"],
            quick: 600_000,
            thorough: 24_000_000,
            run: c01,
            min_nontrivial: 20_000,
        },
        Prop {
            id: "C02",
            rule: "a case writes generated or inconsistent metadata to, or clears (EXIF, APP12, APP13), a corrupted, truncated, spliced, random or intact image through the vector and path APIs, with the right or a wrong claimed type, and exports the metadata for every type; monitors as for C01; non-trivial: all; distinct by input bytes and operation",
            assumptions: &["inputs up to some hundred KiB"],
            quick: 500_000,
            thorough: 20_000_000,
            run: c02,
            min_nontrivial: 20_000,
        },
    ]
}

fn err_ok(e: &Error) -> usize {
    // errors must be printable
    format!("{} {:?} {:?}", e, e, e.kind()).len()
}
/// touch everything a user could touch; returns a number so nothing is optimised away
pub fn use_all(m: &Metadata, r: &mut Rng) -> usize {
    let mut n = 0;
    for t in m {
        n += tag_use(t);
    }
    for ifd in m.get_ifds() {
        n += ifd.get_generic_ifd_nr() as usize & 7;
        n += format!("{:?}", ifd).len();
        if let Some((_, t)) = ifd.get_offset_tag_for_parent_ifd() {
            n += tag_use(&t);
        }
        for t in ifd.get_tags() {
            n += m.get_tag(t).count() + m.get_tag_by_hex(t.as_u16(), None).count();
            n += ImageFileDirectory::get_ifd_type_for_offset_tag(t).is_some() as usize;
        }
    }
    for g in [ExifTagGroup::GENERIC, ExifTagGroup::EXIF, ExifTagGroup::GPS, ExifTagGroup::INTEROP] {
        n += m.get_ifd(g, r.below(3) as u32).map_or(0, |i| i.get_tags().len());
    }
    n += m.get_max_generic_ifd_number() as usize & 15;
    n += format!("{:?}", m.get_endian()).len();
    n
}
fn tag_use(t: &ExifTag) -> usize {
    let mut n = t.as_u16() as usize + t.number_of_components() as usize % 7 + t.is_writable() as usize + t.is_unknown() as usize + t.unknown_is_justified() as usize + t.is_string() as usize;
    n += t.format().as_u16() as usize;
    n += format!("{:?} {:?}", t, t.get_group()).len();
    for e in [Endian::Little, Endian::Big] {
        let v = t.value_as_u8_vec(&e);
        n += v.len();
        n += ExifTag::from_u16_with_data(t.as_u16(), &t.format(), &v, &e, &t.get_group()).is_ok() as usize;
    }
    n
}
fn rand_ft(r: &mut Rng) -> FileExtension {
    match r.below(9) {
        0 => FileExtension::NAKED_JXL,
        1 => FileExtension::PNG { as_zTXt_chunk: false },
        _ => r.pick(&KINDS).ft(),
    }
}
fn c01(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = hostile_image(&mut r);
    with_logging(r.chance(1, 16));
    c.eval(img.note.iter().any(|n| ["mutated", "truncated", "noise", "spliced", "hostile-block"].contains(n)), touched(&img));
    c.count(&format!("input.{}.{}", img.kind.name(), img.note.last().unwrap_or(&"intact")));
    let ft = if r.chance(1, 20) { rand_ft(&mut r) } else { img.kind.ft() };
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    c.sample(|| format!("{} {:?} {} bytes read as {:?}", img.kind.name(), img.note, img.bytes.len(), ft));
    let label = format!("read {:?}", ft);
    let res = if r.chance(1, 5) {
        let ext = if r.chance(1, 8) { *r.pick(&["jpg", "png", "webp", "tif", "jxl", "heic", "bin", "avif"]) } else { ext_for(&mut r, img.kind) };
        let p = c.tmp(&format!("h.{}", ext));
        std::fs::write(&p, &img.bytes).unwrap();
        let o = c.call("read path", img.bytes.len(), || Metadata::new_from_path(&p));
        std::fs::remove_file(&p).ok();
        c.count("path_reads");
        o
    } else {
        c.count("vec_reads");
        c.call(&label, img.bytes.len(), || Metadata::new_from_vec(&img.bytes, ft))
    };
    let res = match res {
        Out::Panic(p) => {
            c.violate(format!("read {:?} panics: {}", ft, norm_panic(&p)), format!("{} {:?} ({} bytes): {}", img.kind.name(), img.note, img.bytes.len(), p), &blobs);
            return;
        }
        Out::Ok(r) => r,
    };
    let mut m = match res {
        Err(e) => {
            c.count("read_errors");
            if let Out::Panic(p) = c.call("print error", 1 << 10, || err_ok(&e)) {
                c.violate(format!("printing the error panics: {}", norm_panic(&p)), p, &blobs);
            }
            return;
        }
        Ok(m) => m,
    };
    c.count("decoded_objects");
    let mut r2 = r.clone();
    match c.call("use decoded object", img.bytes.len() * 4, || use_all(&m, &mut r2)) {
        Out::Ok(_) => (),
        Out::Panic(p) => c.violate(format!("using a decoded object panics: {}", norm_panic(&p)), format!("{} {:?}: {}", img.kind.name(), img.note, p), &blobs),
    }
    c.add("decoded_tags", m.into_iter().count() as u64);
    match c.call("re-encode decoded object", img.bytes.len() * 4, || m.encode().map(|b| b.len())) {
        Out::Ok(_) => (),
        Out::Panic(p) => c.violate(format!("re-encoding a decoded object panics: {}", norm_panic(&p)), format!("{} {:?}: {}", img.kind.name(), img.note, p), &blobs),
    }
    // edits on whatever was decoded
    let (g, t, v) = rand_tag(&mut r, false, true);
    let tag = make_tag(g, t, &v);
    let red = r.chance(1, 3);
    match c.call("edit decoded object", img.bytes.len() * 4, || {
        let k = m.clone();
        m.set_tag(tag.clone());
        m.remove_tag(tag);
        for t in k.into_iter().take(5) {
            m.remove_tag(t.clone());
        }
        if red {
            m.reduce_to_a_minimum();
        }
        m.encode().is_ok()
    }) {
        Out::Ok(_) => (),
        Out::Panic(p) => c.violate(format!("editing a decoded object panics: {}", norm_panic(&p)), format!("{} {:?}: {}", img.kind.name(), img.note, p), &blobs),
    }
}

fn c02(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let img = hostile_image(&mut r);
    with_logging(r.chance(1, 16));
    let kind_meta = r.below(4);
    let meta = match c.call("build metadata", 1 << 20, || match kind_meta {
        0 => hostile_meta(&mut r),
        1 => Metadata::new_from_vec(&img.bytes, img.kind.ft()).unwrap_or_default(),
        _ => meta_for(&mut r, img.kind).meta,
    }) {
        Out::Ok(m) => m,
        Out::Panic(p) if kind_meta == 0 => {
            c.violate(format!("building metadata through the API panics: {}", norm_panic(&p)), p, &[]);
            return;
        }
        Out::Panic(_) => return,
    };
    let ft = if r.chance(1, 25) { rand_ft(&mut r) } else { img.kind.ft() };
    let op = match r.below(10) {
        0..=5 => 0,
        6..=8 => 1,
        _ => 2 + r.below(3),
    };
    let opname = ["write", "clear", "clear app12", "clear app13", "export"][op];
    c.eval(true, touched(&img) ^ (op as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    c.count(&format!("input.{}.{}", img.kind.name(), img.note.last().unwrap_or(&"intact")));
    c.count(&format!("op.{}", opname));
    c.sample(|| format!("{} {} {:?} {} bytes as {:?}", opname, img.kind.name(), img.note, img.bytes.len(), ft));
    let blobs: [(&str, &[u8]); 1] = [("image", &img.bytes)];
    let label = format!("{} {:?}", opname, ft);
    let budget = img.bytes.len() + (1 << 20);
    let path = r.chance(1, 5);
    let out = if path && op != 4 {
        let ext = if r.chance(1, 12) { *r.pick(&["jpg", "png", "webp", "tif", "jxl", "heic"]) } else { ext_for(&mut r, img.kind) };
        let p = c.tmp(&format!("h.{}", ext));
        std::fs::write(&p, &img.bytes).unwrap();
        let o = c.call(&label, budget, || match op {
            0 => meta.write_to_file(&p),
            1 => Metadata::file_clear_metadata(&p),
            2 => Metadata::file_clear_app12_segment(&p),
            _ => Metadata::file_clear_app13_segment(&p),
        });
        std::fs::remove_file(&p).ok();
        c.count("path_operations");
        o
    } else {
        let mut b = img.bytes.clone();
        c.call(&label, budget, || match op {
            0 => meta.write_to_vec(&mut b, ft),
            1 => Metadata::clear_metadata(&mut b, ft),
            2 => Metadata::clear_app12_segment(&mut b, ft),
            3 => Metadata::clear_app13_segment(&mut b, ft),
            _ => {
                for k in KINDS {
                    meta.as_u8_vec(k.ft()).ok();
                }
                meta.as_u8_vec(FileExtension::PNG { as_zTXt_chunk: false }).ok();
                meta.as_u8_vec(FileExtension::NAKED_JXL).map(|_| ())
            }
        })
    };
    match out {
        Out::Ok(Ok(())) => c.count("succeeded"),
        Out::Ok(Err(e)) => {
            c.count("failed_with_error");
            if let Out::Panic(p) = c.call("print error", 1 << 10, || err_ok(&e)) {
                c.violate(format!("printing the error panics: {}", norm_panic(&p)), p, &blobs);
            }
        }
        Out::Panic(p) => {
            let tags = model_of_safe(&meta);
            c.violate(format!("{} {:?}{} panics: {}", opname, ft, if path { " by path" } else { "" }, norm_panic(&p)), format!("{} {:?} ({} bytes): {} [metadata {}]", img.kind.name(), img.note, img.bytes.len(), p, tags), &blobs);
        }
    }
}
fn model_of_safe(m: &Metadata) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let s = format!("{:?}", m.into_iter().map(|t| (t.as_u16(), t.get_group())).collect::<Vec<_>>());
        s.chars().take(600).collect()
    }))
    .unwrap_or_default()
}
#[allow(dead_code)]
fn _unused(_: Model) {}
