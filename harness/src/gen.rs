//! Generators for tag values, metadata objects and foreign EXIF blocks,
//! together with the expected model, and the bridge from library objects
//! to the reference model.
use crate::exif::*;
use crate::rng::Rng;
use crate::tagtable::TAGS;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::filetype::FileExtension;
use little_exif::ifd::ExifTagGroup;
use little_exif::metadata::Metadata;
use std::collections::BTreeMap;

pub fn grp(g: u8) -> ExifTagGroup {
    match g {
        G_IFD => ExifTagGroup::GENERIC,
        G_EXIF => ExifTagGroup::EXIF,
        G_INTEROP => ExifTagGroup::INTEROP,
        _ => ExifTagGroup::GPS,
    }
}
pub fn grp_code(g: ExifTagGroup) -> u8 {
    match g {
        ExifTagGroup::GENERIC => G_IFD,
        ExifTagGroup::EXIF => G_EXIF,
        ExifTagGroup::INTEROP => G_INTEROP,
        ExifTagGroup::GPS => G_GPS,
    }
}
pub fn fmt_of(f: u16) -> ExifTagFormat {
    match f {
        1 => ExifTagFormat::INT8U,
        2 => ExifTagFormat::STRING,
        3 => ExifTagFormat::INT16U,
        4 => ExifTagFormat::INT32U,
        5 => ExifTagFormat::RATIONAL64U,
        6 => ExifTagFormat::INT8S,
        7 => ExifTagFormat::UNDEF,
        8 => ExifTagFormat::INT16S,
        9 => ExifTagFormat::INT32S,
        10 => ExifTagFormat::RATIONAL64S,
        11 => ExifTagFormat::FLOAT,
        _ => ExifTagFormat::DOUBLE,
    }
}
pub fn fmt_code(f: ExifTagFormat) -> u16 {
    match f {
        ExifTagFormat::INT8U => 1,
        ExifTagFormat::STRING => 2,
        ExifTagFormat::INT16U => 3,
        ExifTagFormat::INT32U => 4,
        ExifTagFormat::RATIONAL64U => 5,
        ExifTagFormat::INT8S => 6,
        ExifTagFormat::UNDEF => 7,
        ExifTagFormat::INT16S => 8,
        ExifTagFormat::INT32S => 9,
        ExifTagFormat::RATIONAL64S => 10,
        ExifTagFormat::FLOAT => 11,
        ExifTagFormat::DOUBLE => 12,
    }
}

/// How an object's tags look through its public API.
pub fn model_of(m: &Metadata) -> Model {
    let mut o = Model { be: m.get_endian() == Endian::Big, tags: BTreeMap::new() };
    for ifd in m.get_ifds() {
        let (nr, g) = (ifd.get_generic_ifd_nr(), grp_code(ifd.get_ifd_type()));
        for t in ifd.get_tags() {
            o.push((nr, g, t.as_u16()), val_of(t));
        }
    }
    o
}
pub fn val_of(t: &ExifTag) -> Val {
    match t {
        ExifTag::StripOffsets(_, d) => Val { fmt: 4, data: pack_strips(d) },
        ExifTag::ThumbnailOffset(_, d) => Val { fmt: 4, data: d.clone() },
        _ => {
            let f = fmt_code(t.format());
            let mut data = t.value_as_u8_vec(&Endian::Little);
            if f == 2 {
                if data.last() == Some(&0) {
                    data.pop();
                }
                while data.last() == Some(&0) {
                    data.pop();
                }
            }
            Val { fmt: f, data }
        }
    }
}

pub fn make_tag(group: u8, tag: u16, v: &Val) -> ExifTag {
    if tag == 0x0111 && !is_unk_fmt(v) {
        return ExifTag::StripOffsets(vec![], unpack_strips(&v.data));
    }
    if tag == 0x0201 {
        return ExifTag::ThumbnailOffset(vec![], v.data.clone());
    }
    let mut d = v.data.clone();
    if v.fmt == 2 {
        d.push(0);
    }
    match known(group, tag) {
        Some(_) => ExifTag::from_u16_with_data(tag, &fmt_of(v.fmt), &d, &Endian::Little, &grp(group)).expect("harness: tag construction"),
        None => unknown_tag(group, tag, v),
    }
}
fn is_unk_fmt(_v: &Val) -> bool {
    false
}
pub fn unpack_strips(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = 0;
    while p + 4 <= b.len() {
        let n = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        v.push(b[p + 4..p + 4 + n].to_vec());
        p += 4 + n;
    }
    v
}
fn chunks<const N: usize>(d: &[u8]) -> Vec<[u8; N]> {
    d.chunks_exact(N).map(|c| c.try_into().unwrap()).collect()
}
/// unknown tags are built through the enum variants directly, not the library's byte decoder
pub fn unknown_tag(group: u8, tag: u16, v: &Val) -> ExifTag {
    use little_exif::rational::*;
    let g = grp(group);
    let d = &v.data;
    match v.fmt {
        1 => ExifTag::UnknownINT8U(d.clone(), tag, g),
        2 => ExifTag::UnknownSTRING(String::from_utf8(d.clone()).expect("harness: utf8"), tag, g),
        3 => ExifTag::UnknownINT16U(chunks::<2>(d).into_iter().map(u16::from_le_bytes).collect(), tag, g),
        4 => ExifTag::UnknownINT32U(chunks::<4>(d).into_iter().map(u32::from_le_bytes).collect(), tag, g),
        5 => ExifTag::UnknownRATIONAL64U(
            chunks::<8>(d).into_iter().map(|c| uR64 { nominator: u32::from_le_bytes(c[0..4].try_into().unwrap()), denominator: u32::from_le_bytes(c[4..8].try_into().unwrap()) }).collect(),
            tag,
            g,
        ),
        6 => ExifTag::UnknownINT8S(d.iter().map(|x| *x as i8).collect(), tag, g),
        7 => ExifTag::UnknownUNDEF(d.clone(), tag, g),
        8 => ExifTag::UnknownINT16S(chunks::<2>(d).into_iter().map(i16::from_le_bytes).collect(), tag, g),
        9 => ExifTag::UnknownINT32S(chunks::<4>(d).into_iter().map(i32::from_le_bytes).collect(), tag, g),
        10 => ExifTag::UnknownRATIONAL64S(
            chunks::<8>(d).into_iter().map(|c| iR64 { nominator: i32::from_le_bytes(c[0..4].try_into().unwrap()), denominator: i32::from_le_bytes(c[4..8].try_into().unwrap()) }).collect(),
            tag,
            g,
        ),
        11 => ExifTag::UnknownFLOAT(chunks::<4>(d).into_iter().map(f32::from_le_bytes).collect(), tag, g),
        _ => ExifTag::UnknownDOUBLE(chunks::<8>(d).into_iter().map(f64::from_le_bytes).collect(), tag, g),
    }
}

pub fn rand_text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(4);
    let mut s = String::new();
    while s.len() < n {
        match mode {
            0 => s.push((b'a' + r.below(26) as u8) as char),
            1 => s.push((32 + r.below(95) as u8) as char),
            2 => s.push(*r.pick(&['ä', 'ß', '€', '漢', '😀', 'x', ' ', 'é'])),
            _ => s.push(*r.pick(&['1', '0', ':', ' ', 'N', 'W', '\t', '\n', '%', '"', '\\'])),
        }
    }
    while s.len() > n {
        s.pop();
    }
    // text may contain an inner NUL (several strings in one), but no trailing one
    if s.len() > 4 && r.chance(1, 20) && s.is_ascii() {
        let k = r.range(1, s.len().saturating_sub(2).max(1));
        s.replace_range(k..k + 1, "\0");
    }
    s.into_bytes()
}
/// number of bytes for a value: emphasises the inline/out-of-line boundary
pub fn rand_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=2 => r.range(1, 3),
        3..=5 => r.range(3, 6),
        6..=12 => r.range(1, 16),
        13..=16 => r.range(8, 64),
        17..=18 => r.range(64, 600),
        _ => r.range(600, 3000),
    }
}
pub fn rand_val(r: &mut Rng, fmt: u16, allow_empty: bool) -> Val {
    let n = if allow_empty && r.chance(1, 25) { 0 } else { rand_len(r) };
    let sz = fmt_size(fmt).unwrap();
    if fmt == 2 {
        let n = if r.chance(1, 20) { 0 } else { n };
        return Val { fmt, data: rand_text(r, n) };
    }
    let cnt = if n == 0 { 0 } else { (n / sz).max(1) };
    let data = match r.below(5) {
        0 => vec![0u8; cnt * sz],
        1 => vec![0xff; cnt * sz],
        2 => {
            // small numbers
            let u = swap_unit(fmt);
            let mut d = vec![];
            while d.len() < cnt * sz {
                d.push(r.u8());
                d.extend(std::iter::repeat_n(0, u - 1));
            }
            d
        }
        _ => r.bytes(cnt * sz),
    };
    // avoid signalling NaNs: moving an f32 through registers may quieten them
    let mut data = data;
    if fmt == 11 {
        for c in data.chunks_mut(4) {
            let f = f32::from_le_bytes([c[0], c[1], c[2], c[3]]);
            if f.is_nan() {
                c.copy_from_slice(&1.5f32.to_le_bytes());
            }
        }
    }
    if fmt == 12 {
        for c in data.chunks_mut(8) {
            let f = f64::from_le_bytes(c.try_into().unwrap());
            if f.is_nan() {
                c.copy_from_slice(&(-2.25f64).to_le_bytes());
            }
        }
    }
    Val { fmt, data }
}
pub fn all_known() -> &'static Vec<(u8, u16, u16, bool)> {
    use std::sync::OnceLock;
    static V: OnceLock<Vec<(u8, u16, u16, bool)>> = OnceLock::new();
    V.get_or_init(|| TAGS.iter().filter(|t| is_offset_tag(t.5, t.1).is_none()).map(|t| (t.5, t.1, t.2, t.4)).collect())
}
pub fn is_data_tag(tag: u16) -> bool {
    matches!(tag, 0x0111 | 0x0117 | 0x0201 | 0x0202)
}
pub fn rand_unknown_id(r: &mut Rng, group: u8) -> u16 {
    loop {
        let t = match r.below(6) {
            0 => r.below(0x0100) as u16,
            1 => 0x0100 + r.below(0x200) as u16,
            2 => 0x8000 + r.below(0x1000) as u16,
            3 => 0x9000 + r.below(0x500) as u16,
            4 => 0xa000 + r.below(0x600) as u16,
            _ => r.u16(),
        };
        // tile offsets and SubIFDs announce data beyond the block
        if group == G_IFD && matches!(t, 0x0144 | 0x0145 | 0x014a) {
            continue;
        }
        if !is_data_tag(t) && known(group, t).is_none() && is_offset_tag(group, t).is_none() {
            return t;
        }
    }
}
/// a random (group, tag, value) triple that the library can write
pub fn rand_tag(r: &mut Rng, writable_only: bool, allow_empty: bool) -> (u8, u16, Val) {
    if r.chance(1, 3) {
        let g = *r.pick(&[G_IFD, G_EXIF, G_INTEROP, G_GPS]);
        let t = rand_unknown_id(r, g);
        let f = r.range(1, 12) as u16;
        (g, t, rand_val(r, f, allow_empty))
    } else {
        loop {
            let (g, t, f, w) = *r.pick(all_known());
            if writable_only && !w {
                continue;
            }
            return (g, t, rand_val(r, f, allow_empty));
        }
    }
}
pub fn non_writable(group: u8, tag: u16) -> bool {
    match known(group, tag) {
        Some((_, _, _, w)) => !w,
        None => false,
    }
}

pub struct GenMeta {
    pub meta: Metadata,
    /// expectation computed by the harness, independent of the object
    pub model: Model,
}
pub struct GenOpts {
    pub max_tags: usize,
    pub second_ifd: bool,
    pub thumb: bool,
    pub big_endian: bool,
    pub allow_empty: bool,
    pub max_value: usize,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { max_tags: 24, second_ifd: true, thumb: true, big_endian: true, allow_empty: true, max_value: 3000 }
    }
}
/// Build a metadata object through the public API, with the expected model beside it.
pub fn gen_meta(r: &mut Rng, o: &GenOpts) -> GenMeta {
    let mut model = Model::default();
    let mut meta = if o.big_endian && r.chance(1, 3) {
        // a big-endian object can only come from reading one
        model.be = true;
        Metadata::new_from_vec(&vec![0x4d, 0x4d, 0, 0x2a, 0, 0, 0, 8, 0, 0, 0, 0, 0, 0], FileExtension::TIFF).expect("harness: empty big-endian block")
    } else {
        Metadata::new()
    };
    let n = match r.below(10) {
        0 => r.below(3),
        1..=6 => r.range(1, o.max_tags.min(8)),
        _ => r.range(1, o.max_tags),
    };
    let two = o.second_ifd && r.chance(1, 4);
    for _ in 0..n {
        let (g, t, mut v) = rand_tag(r, false, o.allow_empty);
        if v.data.len() > o.max_value {
            let sz = fmt_size(v.fmt).unwrap();
            let mut k = o.max_value / sz * sz;
            if v.fmt == 2 {
                while std::str::from_utf8(&v.data[..k]).is_err() || (k > 0 && v.data[k - 1] == 0) {
                    k -= 1;
                }
            }
            v.data.truncate(k);
        }
        let tag = make_tag(g, t, &v);
        if two && r.chance(1, 3) {
            // make sure directory 0 exists so that numbering is contiguous
            meta.get_ifd_mut(ExifTagGroup::GENERIC, 0);
            meta.get_ifd_mut(grp(g), 1).set_tag(tag);
            model.set((1, g, t), v);
        } else {
            meta.set_tag(tag);
            model.set((0, g, t), v);
        }
    }
    if r.chance(1, 400) {
        // more entries than fit a byte
        let g = *r.pick(&[G_IFD, G_IFD, G_EXIF, G_INTEROP, G_GPS]);
        for _ in 0..r.range(250, 600) {
            let t = rand_unknown_id(r, g);
            let k = r.range(1, 5);
            let v = Val { fmt: 1, data: r.bytes(k) };
            meta.set_tag(make_tag(g, t, &v));
            model.set((0, g, t), v);
        }
    }
    if o.thumb && r.chance(1, 6) {
        let n = if r.chance(1, 60) { r.range(65_000, 140_000) } else { r.range(1, 400) };
        let d = r.bytes(n);
        meta.get_ifd_mut(ExifTagGroup::GENERIC, 0);
        let nr = if r.chance(2, 3) { 1 } else { 0 };
        let ifd = meta.get_ifd_mut(ExifTagGroup::GENERIC, nr);
        ifd.set_tag(ExifTag::ThumbnailOffset(vec![], d.clone()));
        ifd.set_tag(ExifTag::ThumbnailLength(vec![d.len() as u32]));
        model.set((nr, G_IFD, 0x0202), Val { fmt: 4, data: (d.len() as u32).to_le_bytes().to_vec() });
        model.set((nr, G_IFD, 0x0201), Val { fmt: 4, data: d });
    }
    GenMeta { meta, model }
}
/// what must be readable after a write: the writable tags
pub fn written(m: &Model) -> Model {
    let mut o = m.clone();
    o.tags.retain(|k, _| !non_writable(k.1, k.2));
    o
}
/// mandatory tags for a TIFF write, plus strips
pub fn add_tiff_required(r: &mut Rng, g: &mut GenMeta, nr: u32) {
    let ns = r.range(1, 4);
    let strips: Vec<Vec<u8>> = (0..ns)
        .map(|_| {
            let n = r.range(1, 90);
            r.bytes(n)
        })
        .collect();
    let mut put = |t: u16, v: Val| {
        g.meta.get_ifd_mut(ExifTagGroup::GENERIC, nr).set_tag(make_tag(G_IFD, t, &v));
        g.model.set((nr, G_IFD, t), v);
    };
    let u32v = |x: u32| Val { fmt: 4, data: x.to_le_bytes().to_vec() };
    let u16v = |x: u16| Val { fmt: 3, data: x.to_le_bytes().to_vec() };
    put(0x0100, u32v(r.u16() as u32));
    put(0x0101, u32v(r.u16() as u32));
    put(0x0103, u16v(1));
    put(0x0106, u16v(2));
    put(0x0116, u32v(7));
    put(0x011a, Val { fmt: 5, data: [72u32.to_le_bytes(), 1u32.to_le_bytes()].concat() });
    put(0x011b, Val { fmt: 5, data: [72u32.to_le_bytes(), 1u32.to_le_bytes()].concat() });
    put(0x0128, u16v(2));
    put(0x0117, Val { fmt: 4, data: strips.iter().flat_map(|s| (s.len() as u32).to_le_bytes()).collect() });
    put(0x0111, Val { fmt: 4, data: pack_strips(&strips) });
}

// ------------------------------------------------------------------ foreign blocks
pub struct ForeignOpts {
    /// record known tags also in other, convertible formats
    pub exceptions: bool,
    pub max_tags: usize,
    pub pages: usize,
    pub strips: bool,
    pub text_terminated: bool,
}
fn rand_dir_entries(r: &mut Rng, group: u8, o: &ForeignOpts) -> Vec<(u16, WVal)> {
    let n = r.below(o.max_tags + 1);
    let mut m: BTreeMap<u16, WVal> = BTreeMap::new();
    for _ in 0..n {
        let (tag, fmt) = if r.chance(1, 3) {
            (rand_unknown_id(r, group), r.range(1, 12) as u16)
        } else {
            let c: Vec<_> = all_known().iter().filter(|t| t.0 == group).collect();
            let t = r.pick(&c);
            (t.1, t.2)
        };
        let mut v = rand_val(r, fmt, false);
        if fmt == 2 {
            if o.text_terminated || r.chance(9, 10) {
                v.data.push(0);
            }
            if r.chance(1, 12) {
                v.data.extend([0, 0]);
            }
            if r.chance(1, 12) {
                v.data = r.pick(&[&[0xe4u8, 0xf6, b'x', 0][..], b"Ren\xe9\0Editor\0", b"a\0\xe9\0", b"\xff\0\0"]).to_vec(); // Latin-1
            }
            if v.data.is_empty() {
                v.data.push(0);
            }
        }
        if o.exceptions && known(group, tag).is_some() && r.chance(1, 4) {
            let cnt = (v.data.len() / fmt_size(fmt).unwrap()).clamp(1, 40);
            let alt = match fmt {
                4 => Some((if r.chance(1, 2) { 3u16 } else { 1 }, 0)),
                3 => Some((if r.chance(1, 2) { 4u16 } else { 1 }, 0xffff)),
                1 if group == G_GPS && tag == 5 && r.chance(1, 2) => Some((2, 0)),
                1 => Some((3, 0xff)),
                10 => Some((5, 0)),
                7 if group == G_GPS && tag == 0x1b => Some((2, 0)),
                _ => None,
            };
            if let Some((af, lim)) = alt {
                let data = match af {
                    2 if tag == 5 => vec![*r.pick(&[b'0', b'1', 0, 1]), 0],
                    2 => v.data.clone(),
                    1 => r.bytes(cnt),
                    3 if lim == 0 => r.bytes(cnt * 2),
                    3 => (0..cnt).flat_map(|_| [r.u8(), 0]).collect(),
                    4 => (0..cnt).flat_map(|_| (r.u16() as u32).to_le_bytes()).collect(),
                    _ => (0..cnt)
                        .flat_map(|_| {
                            let (a, b) = match r.below(6) {
                                4 => (*r.pick(&[0, 1, 7, i32::MAX as u32]), 0),
                                5 => (*r.pick(&[0, i32::MAX as u32, i32::MAX as u32 - 1]), *r.pick(&[1, i32::MAX as u32, i32::MAX as u32 - 1])),
                                0 => (r.below(1000) as u32, 1 + r.below(1000) as u32),
                                1 => (r.u32() >> 1, 1),
                                2 => (1 + r.below(100000) as u32, 1 + r.below(100000) as u32),
                                _ => (r.u32() >> 1, 1 + (r.u32() >> 2)),
                            };
                            let mut x = a.to_le_bytes().to_vec();
                            x.extend(b.to_le_bytes());
                            x
                        })
                        .collect(),
                };
                v = Val { fmt: af, data };
            }
        }
        m.insert(tag, WVal::Plain(v.fmt, v.data));
    }
    if r.chance(1, 250) {
        // more entries than fit a byte
        for _ in 0..r.range(250, 600) {
            let t = rand_unknown_id(r, group);
            let k = r.range(1, 5);
            m.insert(t, WVal::Plain(1, r.bytes(k)));
        }
    }
    m.into_iter().collect()
}
pub fn gen_foreign(r: &mut Rng, o: &ForeignOpts) -> WTiff {
    let mut t = WTiff { be: r.chance(1, 2), pages: vec![] };
    // sizes beyond 64 KiB, which need 32-bit offsets
    let big = o.strips && r.chance(1, 40);
    let pages = if o.pages > 1 && r.chance(1, 100) { r.range(5, 40) } else { o.pages };
    for _ in 0..pages {
        let mut d = WDir { entries: rand_dir_entries(r, G_IFD, o), ..Default::default() };
        if r.chance(2, 3) {
            let mut e = WDir { entries: rand_dir_entries(r, G_EXIF, o), ..Default::default() };
            if r.chance(1, 3) {
                e.interop = Some(Box::new(WDir { entries: rand_dir_entries(r, G_INTEROP, o), ..Default::default() }));
            }
            d.exif = Some(Box::new(e));
        }
        if r.chance(1, 3) {
            d.gps = Some(Box::new(WDir { entries: rand_dir_entries(r, G_GPS, o), ..Default::default() }));
        }
        if o.strips || r.chance(1, 8) {
            let n = if big && r.chance(1, 2) { r.range(200, 700) } else { r.range(1, 5) };
            let mut data: Vec<Vec<u8>> = (0..n)
                .map(|_| {
                    let k = if r.chance(1, 40) { 0 } else { r.range(1, 60) };
                    r.bytes(k)
                })
                .collect();
            if big && r.chance(1, 2) {
                let (i, k) = (r.below(n), r.range(65_000, 140_000));
                data[i] = r.bytes(k);
            }
            d.entries.retain(|e| !is_data_tag(e.0));
            d.entries.push((0x0111, WVal::Strips { off_fmt: if !big && r.chance(1, 3) { 3 } else { 4 }, len_fmt: if !big && r.chance(1, 3) { 3 } else { 4 }, data }));
        }
        if r.chance(1, 6) {
            let k = if big && r.chance(1, 4) { r.range(65_000, 140_000) } else { r.range(1, 200) };
            let b = r.bytes(k);
            let f = if !big && r.chance(1, 4) { 3 } else { 4 };
            d.entries.push((0x0201, WVal::Thumb(b, f)));
        }
        t.pages.push(d);
    }
    // 16-bit offsets only where they reach
    fn size(d: &WDir) -> usize {
        let e: usize = d.entries.iter().map(|e| 40 + match &e.1 { WVal::Plain(_, v) => v.len(), WVal::Strips { data, .. } => data.iter().map(|s| s.len() + 40).sum(), WVal::Thumb(v, _) => v.len() }).sum();
        100 + e + [&d.exif, &d.gps, &d.interop].into_iter().flatten().map(|x| size(x)).sum::<usize>()
    }
    if t.pages.iter().map(size).sum::<usize>() > 20_000 {
        for e in t.pages.iter_mut().flat_map(|p| p.entries.iter_mut()) {
            if let WVal::Strips { off_fmt, .. } = &mut e.1 {
                *off_fmt = 4;
            }
        }
    }
    t
}
/// mandatory tags making a page writable as TIFF
pub fn make_tiff_page(r: &mut Rng, d: &mut WDir) {
    let req: Vec<(u16, u16, Vec<u8>)> = vec![
        (0x0100, if r.chance(1, 2) { 3 } else { 4 }, vec![]),
        (0x0101, if r.chance(1, 2) { 3 } else { 4 }, vec![]),
        (0x0102, 3, [8u16, 8, 8].iter().flat_map(|x| x.to_le_bytes()).collect()),
        (0x0103, 3, 1u16.to_le_bytes().to_vec()),
        (0x0106, 3, 2u16.to_le_bytes().to_vec()),
        (0x0115, 3, 3u16.to_le_bytes().to_vec()),
        (0x0116, 4, 5u32.to_le_bytes().to_vec()),
        (0x011a, 5, [72u32.to_le_bytes(), 1u32.to_le_bytes()].concat()),
        (0x011b, 5, [300u32.to_le_bytes(), 2u32.to_le_bytes()].concat()),
        (0x0128, 3, 2u16.to_le_bytes().to_vec()),
    ];
    for (t, f, mut v) in req {
        d.entries.retain(|e| e.0 != t);
        if v.is_empty() {
            v = if f == 3 { (1 + r.below(2000) as u16).to_le_bytes().to_vec() } else { (1 + r.below(70000) as u32).to_le_bytes().to_vec() };
        }
        d.entries.push((t, WVal::Plain(f, v)));
    }
    if !d.entries.iter().any(|e| matches!(e.1, WVal::Strips { .. })) {
        let n = r.range(1, 4);
        let data = (0..n)
            .map(|_| {
                let k = r.range(1, 50);
                r.bytes(k)
            })
            .collect();
        d.entries.push((0x0111, WVal::Strips { off_fmt: 4, len_fmt: 4, data }));
    }
}
/// a small EXIF block for embedding into generated images
pub fn small_block(r: &mut Rng) -> Vec<u8> {
    // now and then with a second directory that describes a preview, as cameras write it
    let two = r.chance(1, 5);
    let o = ForeignOpts { exceptions: false, max_tags: 6, pages: if two { 2 } else { 1 }, strips: false, text_terminated: true };
    let mut t = gen_foreign(r, &o);
    if two {
        for d in t.pages.iter_mut() {
            for (tag, n) in [(0x0112u16, 8), (0x0128, 3)] {
                if !d.entries.iter().any(|e| e.0 == tag) && r.chance(2, 3) {
                    d.entries.push((tag, WVal::Plain(3, (1 + r.below(n) as u16).to_le_bytes().to_vec())));
                }
            }
            d.entries.sort_by_key(|e| e.0);
        }
    }
    let l = Layout::random(r);
    write_foreign(&t, &l, r)
}
