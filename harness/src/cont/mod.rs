//! Independent container layer: strict parsers ("what parts does this image
//! consist of, which EXIF carriers does it hold") and generators of
//! well-formed images with diverse structure. Shares no code with the library.
use crate::rng::Rng;
use little_exif::filetype::FileExtension;

pub mod heif;
pub mod jpeg;
pub mod jxl;
pub mod png;
pub mod tiff;
pub mod webp;
pub mod xml;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Jpeg,
    Png,
    Webp,
    Jxl,
    Heif,
    Tiff,
}
pub const KINDS: [Kind; 6] = [Kind::Jpeg, Kind::Png, Kind::Webp, Kind::Jxl, Kind::Heif, Kind::Tiff];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Jpeg => "jpeg",
            Kind::Png => "png",
            Kind::Webp => "webp",
            Kind::Jxl => "jxl",
            Kind::Heif => "heif",
            Kind::Tiff => "tiff",
        }
    }
    pub fn ft(self) -> FileExtension {
        match self {
            Kind::Jpeg => FileExtension::JPEG,
            Kind::Png => FileExtension::PNG { as_zTXt_chunk: true },
            Kind::Webp => FileExtension::WEBP,
            Kind::Jxl => FileExtension::JXL,
            Kind::Heif => FileExtension::HEIF,
            Kind::Tiff => FileExtension::TIFF,
        }
    }
    pub fn exts(self) -> &'static [&'static str] {
        match self {
            Kind::Jpeg => &["jpg", "jpeg", "JPG", "Jpeg"],
            Kind::Png => &["png", "PNG"],
            Kind::Webp => &["webp", "WebP"],
            Kind::Jxl => &["jxl", "JXL"],
            Kind::Heif => &["heif", "heic", "hif", "avif", "HEIC"],
            Kind::Tiff => &["tiff", "tif", "TIF"],
        }
    }
}

/// one part of an image that is not an EXIF carrier
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Part {
    pub name: String,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub parts: Vec<Part>,
    /// TIFF blocks of the EXIF carriers, without the "Exif\0\0" prefix
    pub carriers: Vec<Vec<u8>>,
    /// carriers that are empty placeholders (HEIF items without TIFF data)
    pub empty_carriers: usize,
}
impl Parsed {
    pub fn part(&mut self, name: impl Into<String>, data: &[u8]) {
        self.parts.push(Part { name: name.into(), data: data.to_vec() });
    }
    pub fn has_exif(&self) -> bool {
        !self.carriers.is_empty()
    }
}
/// first difference of two part sequences
pub fn part_diff(a: &[Part], b: &[Part]) -> Option<String> {
    let n = a.len().max(b.len());
    for i in 0..n {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => {
                if x.name != y.name {
                    return Some(format!("part {}: {} before, {} after", i, x.name, y.name));
                }
                if x.data != y.data {
                    let p = x.data.iter().zip(&y.data).position(|(p, q)| p != q).unwrap_or(x.data.len().min(y.data.len()));
                    return Some(format!("part {} of {} changed: content of length {} became {}, first difference at {}", x.name, n, x.data.len(), y.data.len(), p));
                }
            }
            (Some(x), None) => return Some(format!("part {} {} lost: {} parts before, {} after", i, x.name, a.len(), b.len())),
            (None, Some(y)) => return Some(format!("part {} {} appeared: {} parts before, {} after", i, y.name, a.len(), b.len())),
            _ => (),
        }
    }
    None
}
/// stable class of a part difference
pub fn part_class(d: &str) -> String {
    crate::props::block::classify(d)
}

#[derive(Clone, Debug)]
pub struct Img {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    /// structural features, for evidence and messages
    pub note: Vec<&'static str>,
}
impl Img {
    pub fn has(&self, n: &str) -> bool {
        self.note.iter().any(|x| *x == n)
    }
}
/// EXIF to embed in a generated image
#[derive(Clone)]
pub struct Opts {
    /// TIFF blocks to embed as EXIF (usually 0 or 1)
    pub exif: Vec<Vec<u8>>,
    /// upper bound for bulk payloads
    pub bulk: usize,
}
pub fn gen(kind: Kind, r: &mut Rng, o: &Opts) -> Img {
    match kind {
        Kind::Jpeg => jpeg::gen(r, o),
        Kind::Png => png::gen(r, o),
        Kind::Webp => webp::gen(r, o),
        Kind::Jxl => jxl::gen(r, o),
        Kind::Heif => heif::gen(r, o),
        Kind::Tiff => tiff::gen(r, o),
    }
}
pub fn parse(kind: Kind, b: &[u8]) -> Result<Parsed, String> {
    let p = parse_input(kind, b)?;
    if kind == Kind::Webp && p.carriers.len() + p.empty_carriers > 1 {
        return Err("more than one EXIF chunk".into());
    }
    Ok(p)
}
/// WebP readers have to cope with several EXIF chunks (only the first of them
/// counts) though no writer may leave more than one
pub fn parse_input(kind: Kind, b: &[u8]) -> Result<Parsed, String> {
    match kind {
        Kind::Jpeg => jpeg::parse(b),
        Kind::Png => png::parse(b),
        Kind::Webp => webp::parse(b),
        Kind::Jxl => jxl::parse(b),
        Kind::Heif => heif::parse(b),
        Kind::Tiff => tiff::parse(b),
    }
}
/// parts to compare across a write/clear: removes what the operation may legitimately synthesise
pub fn comparable(kind: Kind, before: &Parsed, after: &Parsed) -> (Vec<Part>, Vec<Part>) {
    let (mut a, mut b) = (before.parts.clone(), after.parts.clone());
    match kind {
        Kind::Jxl => {
            // a bare codestream becomes a container holding it
            if a.iter().all(|p| p.name != "ftyp") {
                b.retain(|p| p.name != "ftyp");
            }
        }
        Kind::Webp => {
            // a simple file becomes an extended one
            if a.iter().all(|p| p.name != "VP8X") {
                b.retain(|p| p.name != "VP8X");
            }
        }
        Kind::Png => {
            // XMP packets lose their EXIF properties; C16 judges their content
            for p in a.iter_mut().chain(b.iter_mut()) {
                if p.name.contains("xmp") {
                    p.data.clear();
                }
            }
        }
        _ => (),
    }
    (a, b)
}
pub fn be32(b: &[u8], o: usize) -> Option<u32> {
    b.get(o..o + 4).map(|s| u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
}
pub fn le32(b: &[u8], o: usize) -> Option<u32> {
    b.get(o..o + 4).map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
}
pub fn be16(b: &[u8], o: usize) -> Option<u16> {
    b.get(o..o + 2).map(|s| u16::from_be_bytes([s[0], s[1]]))
}
pub fn strip_prefix(b: &[u8]) -> &[u8] {
    b.strip_prefix(b"Exif\0\0").unwrap_or(b)
}
