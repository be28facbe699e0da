//! C10: in-memory edit histories against a keyed-map reference model.
use crate::exif::*;
use crate::gen::*;
use crate::rng::*;
use crate::run::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension;
use little_exif::ifd::ImageFileDirectory;
use little_exif::metadata::Metadata;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "a case is one random history of up to 40 edits (set, remove, directory creation and access, reduction, clone, edits on directories other than the first and with tags of other groups) on a new or decoded object; after every edit the whole object, all lookups and all enumerations are compared with a keyed map, and in a third of the histories now and then (in all at the end, and for the clone) the encoding with that of a freshly built object of the same content; non-trivial: a history with at least three edits one of which replaces or removes something; distinct by the trace of edits",
        assumptions: &["directory numbers below 6 in the histories"],
        quick: 100_000,
        thorough: 4_000_000,
        run: c10,
        min_nontrivial: 5_000,
    }]
}

const GROUPS: [u8; 4] = [G_IFD, G_EXIF, G_INTEROP, G_GPS];
#[derive(Clone, Default)]
struct Map {
    dirs: BTreeSet<(u32, u8)>,
    tags: BTreeMap<Key, String>,
    /// decoded directories keep the file's order until their first edit
    lax: BTreeSet<(u32, u8)>,
}
impl Map {
    fn create(&mut self, nr: u32, g: u8) {
        self.dirs.insert((nr, g));
        match g {
            G_EXIF | G_GPS => {
                self.dirs.insert((nr, G_IFD));
            }
            G_INTEROP => {
                self.dirs.insert((nr, G_EXIF));
                self.dirs.insert((nr, G_IFD));
            }
            _ => (),
        }
    }
}
const KEEP: [&str; 15] = [
    "StripOffsets", "StripByteCounts", "ThumbnailOffset", "ThumbnailLength", "ImageWidth", "ImageHeight", "BitsPerSample", "Compression", "PhotometricInterpretation", "SamplesPerPixel", "RowsPerStrip", "XResolution", "YResolution", "ResolutionUnit", "ColorMap",
];
/// what a reduction keeps: see the table and list in the library's documentation
fn kept(k: &Key, dbg: &str) -> bool {
    let v = variant(dbg);
    let generic = match known(G_IFD, k.2) {
        Some(x) => x.0 == v,
        None => dbg.starts_with("Unknown") && dbg.ends_with("GENERIC)"),
    };
    k.1 == G_IFD && (KEEP.contains(&v) || generic && (k.2 == 0x014c || super::tiffprop::DECODE.iter().any(|d| d.0 == k.2)))
}
fn variant(dbg: &str) -> &str {
    dbg.split('(').next().unwrap_or("")
}
/// small universe so that histories collide
fn small_tag(r: &mut Rng) -> (u8, u16, Val) {
    if r.chance(1, 4) {
        return rand_tag(r, false, true);
    }
    let pool: [(u8, u16, u16); 19] = [
        (G_IFD, 0x011c, 3),
        (G_IFD, 0x013d, 3),
        (G_IFD, 0x0212, 3),
        (G_IFD, 0x010e, 2),
        (G_IFD, 0x0100, 4),
        (G_IFD, 0x0102, 3),
        (G_IFD, 0x0140, 3),
        (G_IFD, 0x011a, 5),
        (G_EXIF, 0x8827, 3),
        (G_EXIF, 0x9000, 7),
        (G_EXIF, 0x829a, 5),
        (G_GPS, 0x0001, 2),
        (G_GPS, 0x0002, 5),
        (G_INTEROP, 0x0001, 2),
        (G_INTEROP, 0x0002, 7),
        (G_IFD, 0x0002, 1),
        (G_EXIF, 0x0002, 9),
        (G_EXIF, 0x010e, 12),
        (G_GPS, 0xfff0, 11),
    ];
    let (g, t, f) = *r.pick(&pool);
    (g, t, rand_val(r, f, true))
}
fn c10(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut map = Map::default();
    let mut trace = String::new();
    let mut be = false;
    let mut meta = if r.chance(1, 4) {
        let o = ForeignOpts { exceptions: false, max_tags: 6, pages: r.range(1, 3), strips: false, text_terminated: true };
        let t = gen_foreign(&mut r, &o);
        let b = write_foreign(&t, &Layout::random(&mut r), &mut r);
        match c.call("read", b.len(), || Metadata::new_from_vec(&b, FileExtension::TIFF)) {
            Out::Ok(Ok(m)) => {
                be = t.be;
                for d in m.get_ifds() {
                    map.dirs.insert((d.get_generic_ifd_nr(), grp_code(d.get_ifd_type())));
                    if d.get_tags().windows(2).any(|w| w[0].as_u16() >= w[1].as_u16()) {
                        map.lax.insert((d.get_generic_ifd_nr(), grp_code(d.get_ifd_type())));
                    }
                    for t in d.get_tags() {
                        map.tags.insert((d.get_generic_ifd_nr(), grp_code(d.get_ifd_type()), t.as_u16()), format!("{:?}", t));
                    }
                }
                trace.push_str(&format!("decoded {} tags; ", map.tags.len()));
                m
            }
            _ => return,
        }
    } else {
        Metadata::new()
    };
    let n = r.range(1, 40);
    let encoding = r.chance(1, 3);
    let (mut edits, mut hits) = (0, 0);
    let mut snapshot: Option<(Metadata, Map)> = None;
    for _ in 0..n {
        let nr = if r.chance(2, 3) { 0 } else { r.below(6) as u32 };
        let mut removed_now: Option<(usize, usize)> = None;
        let op = r.below(14);
        let step: String;
        let res: Out<usize>;
        match op {
            0..=3 => {
                let (g, t, v) = small_tag(&mut r);
                let tag = make_tag(g, t, &v);
                let g = grp_code(tag.get_group());
                step = format!("set_tag {:?}", tag);
                map.create(0, g);
                map.lax.remove(&(0, g));
                if map.tags.insert((0, g, t), format!("{:?}", tag)).is_some() {
                    hits += 1;
                }
                res = c.call("set_tag", 0, || {
                    meta.set_tag(tag);
                    0
                });
            }
            4..=6 => {
                let (g, t, v) = small_tag(&mut r);
                let tag = make_tag(g, t, &v);
                // now and then in a directory of another group
                let dg = if r.chance(1, 6) { *r.pick(&GROUPS) } else { grp_code(tag.get_group()) };
                step = format!("ifd({},{}).set_tag {:?}", nr, dg, tag);
                map.create(nr, dg);
                map.lax.remove(&(nr, dg));
                if map.tags.insert((nr, dg, t), format!("{:?}", tag)).is_some() {
                    hits += 1;
                }
                res = c.call("ifd.set_tag", 0, || {
                    meta.get_ifd_mut(grp(dg), nr).set_tag(tag);
                    0
                });
            }
            7 | 8 => {
                let (g, t, v) = small_tag(&mut r);
                let (g, t, tag) = if !map.tags.is_empty() && r.chance(2, 3) {
                    let k = *map.tags.keys().nth(r.below(map.tags.len())).unwrap();
                    (k.1, k.2, None)
                } else {
                    (g, t, Some(make_tag(g, t, &v)))
                };
                let before = map.tags.len();
                let (g, t) = match &tag {
                    Some(x) => (grp_code(x.get_group()), x.as_u16()),
                    None => (g, t),
                };
                map.tags.retain(|k, _| !(k.1 == g && k.2 == t));
                hits += (before - map.tags.len()).min(1);
                map.lax.retain(|d| d.1 != g);
                step = format!("remove {:04x} group {}", t, g);
                removed_now = Some((before - map.tags.len(), meta.get_ifds().iter().filter(|i| grp_code(i.get_ifd_type()) == g).count()));
                res = c.call("remove_tag", 0, || match tag {
                    Some(x) => meta.remove_tag(x),
                    None => meta.remove_tag_by_hex_group(t, grp(g)),
                });
            }
            9 => {
                let g = *r.pick(&GROUPS);
                let t = if !map.tags.is_empty() && r.chance(2, 3) { map.tags.keys().nth(r.below(map.tags.len())).unwrap().2 } else { r.u16() };
                step = format!("ifd({},{}).remove_tag {:04x}", nr, g, t);
                map.create(nr, g);
                map.lax.remove(&(nr, g));
                if map.tags.remove(&(nr, g, t)).is_some() {
                    hits += 1;
                }
                res = c.call("ifd.remove_tag", 0, || {
                    meta.get_ifd_mut(grp(g), nr).remove_tag(t);
                    0
                });
            }
            10 | 11 => {
                let g = *r.pick(&GROUPS);
                step = format!("create_ifd({},{})", nr, g);
                map.create(nr, g);
                let direct = op == 10;
                res = c.call("create_ifd", 0, || {
                    if direct {
                        meta.create_ifd(grp(g), nr);
                    } else {
                        meta.get_ifd_mut(grp(g), nr);
                    }
                    0
                });
            }
            12 => {
                if !r.chance(1, 4) {
                    continue;
                }
                step = "reduce_to_a_minimum".into();
                map.dirs.retain(|d| d.1 == G_IFD);
                let before = map.tags.len();
                map.tags.retain(|k, v| kept(k, v));
                hits += (before > map.tags.len()) as usize;
                res = c.call("reduce", 0, || {
                    meta.reduce_to_a_minimum();
                    0
                });
            }
            _ => {
                // clones are independent of the original
                step = "clone".into();
                if snapshot.is_none() {
                    snapshot = Some((meta.clone(), map.clone()));
                }
                res = Out::Ok(0);
            }
        }
        edits += 1;
        c.count("edits");
        trace.push_str(&step);
        trace.push_str("; ");
        let ret = match res {
            Out::Ok(v) => v,
            Out::Panic(p) => {
                c.violate(format!("edit panics: {}", norm_panic(&p)), format!("{}: {}", trace, p), &[]);
                return;
            }
        };
        if let Some((removed, dirs)) = removed_now {
            if ret > dirs {
                c.violate("remove reports more removals than there are directories of the group", format!("{}: returned {}, {} directories", trace, ret, dirs), &[]);
            }
            if (ret == 0 && removed > 0) || ret < removed {
                c.violate("remove reports fewer removals than performed", format!("{}: returned {} but {} tags removed", trace, ret, removed), &[]);
            }
        }
        if !compare(c, &meta, &map, &trace, &mut r) {
            return;
        }
        if encoding && r.chance(1, 4) {
            trace.push_str("encode; ");
            if !encodes_content(c, &meta, &map, be, &trace) {
                return;
            }
        }
    }
    if !encodes_content(c, &meta, &map, be, &trace) {
        return;
    }
    if let Some((m, mp)) = &snapshot {
        let t = format!("{} -- the clone taken on the way", trace);
        if !compare(c, m, mp, &t, &mut r) || !encodes_content(c, m, mp, be, &t) || !encodes_content(c, &meta, &map, be, &trace) {
            return;
        }
    }
    c.eval(edits >= 3 && hits > 0, hash_str(&trace));
    c.sample(|| trace.clone());
}

/// the encoding is that of a freshly built object with the same content, whatever was edited,
/// cloned or encoded before
fn encodes_content(c: &mut Ctx, meta: &Metadata, map: &Map, be: bool, trace: &str) -> bool {
    if !map.lax.is_empty() {
        c.count("encoding_of_unsorted_skipped");
        return true;
    }
    let fresh = || {
        let mut m = if be { Metadata::new_from_vec(&b"MM\0*\0\0\0\x08\0\0\0\0\0\0".to_vec(), FileExtension::TIFF).unwrap_or_default() } else { Metadata::new() };
        for d in meta.get_ifds() {
            m.create_ifd(d.get_ifd_type(), d.get_generic_ifd_nr());
            for t in d.get_tags() {
                m.get_ifd_mut(d.get_ifd_type(), d.get_generic_ifd_nr()).set_tag(t.clone());
            }
        }
        m.encode().map_err(|e| e.kind())
    };
    let (a, b) = match (c.call("encode", 1 << 16, || meta.encode().map_err(|e| e.kind())), c.call("encode fresh", 1 << 16, fresh)) {
        (Out::Ok(a), Out::Ok(b)) => (a, b),
        (Out::Panic(p), _) | (_, Out::Panic(p)) => {
            c.violate(format!("encode panics: {}", norm_panic(&p)), format!("{}: {}", trace, p), &[]);
            return false;
        }
    };
    c.count("encodings_compared");
    if be {
        c.count("encodings_compared.be");
    }
    if a != b {
        c.violate("encoding depends on more than the content", format!("{}: {:02x?}, freshly built {:02x?}", trace, a, b), &[]);
        return false;
    }
    true
}

fn compare(c: &mut Ctx, meta: &Metadata, map: &Map, trace: &str, r: &mut Rng) -> bool {
    // enumeration: directories in order, tags in ascending order
    let dirs: Vec<(u32, u8)> = meta.get_ifds().iter().map(|i| (i.get_generic_ifd_nr(), grp_code(i.get_ifd_type()))).collect();
    let want: Vec<(u32, u8)> = map.dirs.iter().cloned().collect();
    c.count("states_compared");
    let tail: String = trace.chars().rev().take(900).collect::<String>().chars().rev().collect();
    if dirs != want {
        let mut s = dirs.clone();
        s.sort();
        let sig = if s == want { "directories not in order" } else { "directories differ from the model" };
        c.violate(sig, format!("{}: object {:?} model {:?}", tail, dirs, want), &[]);
        return false;
    }
    let mut have: Vec<(Key, String)> = vec![];
    for i in meta.get_ifds() {
        for t in i.get_tags() {
            have.push(((i.get_generic_ifd_nr(), grp_code(i.get_ifd_type()), t.as_u16()), format!("{:?}", t)));
        }
    }
    let raw = have.clone();
    let mut a = 0;
    while a < have.len() {
        let d = (have[a].0 .0, have[a].0 .1);
        let mut b = a;
        while b < have.len() && (have[b].0 .0, have[b].0 .1) == d {
            b += 1;
        }
        if map.lax.contains(&d) {
            have[a..b].sort_by_key(|x| x.0);
        }
        a = b;
    }
    let wantt: Vec<(Key, String)> = map.tags.iter().map(|(k, v)| (*k, v.clone())).collect();
    if have != wantt {
        let mut s = have.clone();
        s.sort();
        let sig = if s == wantt {
            "tags not in order"
        } else if have.len() > wantt.len() {
            "object holds tags the model does not"
        } else if have.len() < wantt.len() {
            "object lost tags"
        } else {
            "object holds other values than the model"
        };
        let d = have.iter().find(|x| !wantt.contains(x)).or(wantt.iter().find(|x| !have.contains(x))).or(have.iter().zip(&wantt).find(|x| x.0 != x.1).map(|x| x.0));
        c.violate(sig, format!("{}: e.g. {:?}; {} vs {}", tail, d, have.len(), wantt.len()), &[]);
        return false;
    }
    // how directories are linked
    for i in meta.get_ifds() {
        let g = grp_code(i.get_ifd_type());
        let want = match g {
            G_EXIF => Some((G_IFD, 0x8769)),
            G_GPS => Some((G_IFD, 0x8825)),
            G_INTEROP => Some((G_EXIF, 0xa005)),
            _ => None,
        };
        let o = i.get_offset_tag_for_parent_ifd();
        let back = o.as_ref().map(|(_, t)| ImageFileDirectory::get_ifd_type_for_offset_tag(t).map(grp_code));
        if o.map(|(p, t)| (grp_code(p), t.as_u16())) != want || back != want.map(|_| Some(g)) || i.get_tags().iter().any(|t| ![0x8769, 0x8825, 0xa005].contains(&t.as_u16()) && ImageFileDirectory::get_ifd_type_for_offset_tag(t).is_some()) {
            c.violate("directory links disagree", format!("{}: {:?}", tail, (g, want, back)), &[]);
            return false;
        }
    }
    // iterator
    let it: Vec<String> = meta.into_iter().map(|t| format!("{:?}", t)).collect();
    if it.iter().ne(raw.iter().map(|x| &x.1)) {
        c.violate("iteration disagrees with the directories", format!("{}: {:?}", tail, it), &[]);
        return false;
    }
    if meta.get_max_generic_ifd_number() != map.dirs.iter().filter(|d| d.1 == G_IFD).map(|d| d.0).max().unwrap_or(0) {
        c.violate("maximum directory number wrong", format!("{}: {}", tail, meta.get_max_generic_ifd_number()), &[]);
    }
    // lookups
    for _ in 0..3 {
        let (g, t) = if !map.tags.is_empty() && r.chance(3, 4) {
            let k = map.tags.keys().nth(r.below(map.tags.len())).unwrap();
            (k.1, k.2)
        } else {
            (*r.pick(&GROUPS), r.u16())
        };
        c.count("lookups");
        let all: Vec<&String> = map.tags.iter().filter(|(k, _)| k.2 == t).map(|x| x.1).collect();
        let of: Vec<&String> = map.tags.iter().filter(|(k, _)| k.2 == t && k.1 == g).map(|x| x.1).collect();
        let a: Vec<String> = meta.get_tag_by_hex(t, None).map(|t| format!("{:?}", t)).collect();
        let b: Vec<String> = meta.get_tag_by_hex(t, Some(grp(g))).map(|t| format!("{:?}", t)).collect();
        if a.iter().ne(all.iter().cloned()) {
            c.violate("lookup by number disagrees", format!("{}: {:04x} -> {:?} want {:?}", tail, t, a, all), &[]);
            return false;
        }
        if b.iter().ne(of.iter().cloned()) {
            c.violate("lookup by number and group disagrees", format!("{}: {:04x} group {} -> {:?} want {:?}", tail, t, g, b, of), &[]);
            return false;
        }
        let probe: Option<ExifTag> = ExifTag::from_u16(t, &grp(g)).ok();
        if let Some(p) = probe {
            let pg = grp_code(p.get_group());
            let of: Vec<&String> = map.tags.iter().filter(|(k, _)| k.2 == t && k.1 == pg).map(|x| x.1).collect();
            let d: Vec<String> = meta.get_tag(&p).map(|t| format!("{:?}", t)).collect();
            if d.iter().ne(of.iter().cloned()) {
                c.violate("lookup by tag disagrees", format!("{}: {:?} -> {:?} want {:?}", tail, p, d, of), &[]);
                return false;
            }
        }
        // single directory access
        let nr = r.below(6) as u32;
        let want = map.dirs.contains(&(nr, g));
        match meta.get_ifd(grp(g), nr) {
            Some(i) if want && i.get_generic_ifd_nr() == nr && grp_code(i.get_ifd_type()) == g => (),
            None if !want => (),
            o => {
                c.violate("directory lookup disagrees", format!("{}: ({},{}) -> {:?}", tail, nr, g, o), &[]);
                return false;
            }
        }
    }
    true
}
