//! C20: HEIF/AVIF items keep their bytes, locations and relations.
use crate::cont::{self, heif, Img, Kind, Opts};
use crate::props::block::classify;
use crate::props::image::*;
use crate::rng::*;
use crate::run::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "a case applies 1 to 4 writes and clears (metadata from empty to 60 KiB, either API) to one generated or sample HEIF/AVIF file (table versions, field widths, base offsets, several extents, construction methods, box orders and sizes, track chunk offsets) and after each step resolves every item through the rewritten tables with an independent parser: identity, type, name, flags, construction, extent lengths, bytes, references, properties, primary item; a written EXIF item must be declared, located and linked to the primary item exactly once and overlap no other item; non-trivial: at least two items; distinct by input and result",
        assumptions: &["a file keeping its EXIF item in the idat box or in several extents may be refused, unchanged, as documented by the library's error"],
        quick: 250_000,
        thorough: 10_000_000,
        run: c20,
        min_nontrivial: 6_000,
    }]
}
fn items_diff(a: &heif::Meta, b: &heif::Meta) -> Option<(String, String)> {
    let f = |m: &heif::Meta| m.items.iter().filter(|i| &i.ty != b"Exif").cloned().collect::<Vec<_>>();
    let (x, y) = (f(a), f(b));
    for i in &x {
        let t = String::from_utf8_lossy(&i.ty).to_string();
        let o = match y.iter().find(|o| o.id == i.id) {
            Some(o) => o,
            None => return Some(("item lost".into(), format!("item {} ({}) is gone", i.id, t))),
        };
        if o.ty != i.ty || o.prot != i.prot || o.rest != i.rest || o.flags != i.flags {
            return Some(("item declaration changed".into(), format!("item {} ({}): {:?} became {:?}", i.id, t, (i.ty, i.prot, &i.rest, i.flags), (o.ty, o.prot, &o.rest, o.flags))));
        }
        if o.method != i.method || o.dref != i.dref || o.located != i.located {
            return Some(("item construction changed".into(), format!("item {} ({}): method {} dref {} located {} became {} {} {}", i.id, t, i.method, i.dref, i.located, o.method, o.dref, o.located)));
        }
        if o.data != i.data {
            return Some(("item resolves to other bytes".into(), format!("item {} ({}): {} bytes via {:?} became {} bytes via {:?}", i.id, t, i.data.len(), i.extents, o.data.len(), o.extents)));
        }
        let l = |v: &[(u64, u64)]| v.iter().map(|e| e.1).collect::<Vec<_>>();
        if l(&o.extents) != l(&i.extents) {
            return Some(("item extents regrouped".into(), format!("item {} ({}): {:?} became {:?}", i.id, t, i.extents, o.extents)));
        }
    }
    if x.len() != y.len() {
        return Some(("items appeared".into(), format!("{} items, {} before", y.len(), x.len())));
    }
    if x.iter().map(|i| i.id).ne(y.iter().map(|i| i.id)) {
        return Some(("items reordered".into(), "declaration order changed".into()));
    }
    if a.primary != b.primary {
        return Some(("primary item changed".into(), format!("{:?} became {:?}", a.primary, b.primary)));
    }
    let g = |m: &heif::Meta| {
        let e: Vec<u32> = m.items.iter().filter(|i| &i.ty == b"Exif").map(|i| i.id).collect();
        m.refs.iter().filter(|r| !e.contains(&r.1)).map(|r| (r.0, r.1, r.2.iter().filter(|t| !e.contains(t)).cloned().collect::<Vec<_>>())).collect::<Vec<_>>()
    };
    if g(a) != g(b) {
        return Some(("references changed".into(), format!("{:?} became {:?}", g(a), g(b))));
    }
    cont::part_diff(&a.parts, &b.parts).map(|d| (cont::part_class(&d), d))
}
fn tiff_of(i: &heif::Item) -> Vec<u8> {
    cont::be32(&i.data, 0).and_then(|o| i.data.get(4 + o as usize..)).map(|b| cont::strip_prefix(b).to_vec()).unwrap_or_default()
}
fn exif_ok(m: &heif::Meta, before: &heif::Meta) -> Option<(String, String)> {
    let e: Vec<&heif::Item> = m.items.iter().filter(|i| &i.ty == b"Exif").collect();
    if e.is_empty() {
        return Some(("no EXIF item".into(), String::new()));
    }
    // further EXIF items may remain as empty placeholders
    let full: Vec<&heif::Item> = e.iter().filter(|i| !tiff_of(i).is_empty()).cloned().collect();
    if full.len() > 1 {
        return Some((format!("{} EXIF items with data", full.len().min(3)), format!("{} items of type Exif", e.len())));
    }
    let e = full.first().cloned().unwrap_or(e[0]);
    if !e.located || e.extents.is_empty() {
        return Some(("EXIF item not located".into(), format!("item {}", e.id)));
    }
    let links = m.refs.iter().filter(|r| &r.0 == b"cdsc" && r.1 == e.id && m.primary.is_some_and(|p| r.2.contains(&p))).count();
    if links != 1 {
        return Some((format!("EXIF item linked to the primary item {} times", links), format!("item {}, references {:?}", e.id, m.refs)));
    }
    if before.items.iter().all(|i| &i.ty != b"Exif") {
        // a new item must not take an identity anything else refers to
        if before.items.iter().any(|i| i.id == e.id) {
            return Some(("EXIF item took the identity of another item".into(), format!("item {}", e.id)));
        }
        if e.id == 0 {
            return Some(("EXIF item has the reserved identity 0".into(), String::new()));
        }
    }
    for o in m.items.iter().filter(|i| i.id != e.id && !i.external && i.method == e.method && i.method < 2) {
        for (a, n) in &o.extents {
            for (b, k) in &e.extents {
                if *n > 0 && *k > 0 && a < &(b + k) && b < &(a + n) {
                    return Some(("EXIF item overlaps another item".into(), format!("item {} at {}+{}, EXIF at {}+{}", o.id, a, n, b, k)));
                }
            }
        }
    }
    None
}
fn c20(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let heifs: Vec<&Sample> = samples().iter().filter(|s| s.kind == Kind::Heif).collect();
    let img = if r.chance(1, 40) && !heifs.is_empty() {
        Img { kind: Kind::Heif, bytes: r.pick(&heifs).bytes.clone(), note: vec!["sample"] }
    } else {
        let b = rand_blocks(&mut r, Kind::Heif, true);
        let bulk = *r.pick(&[100, 3000, 3000, 3000, 70_000]);
        let shared = r.chance(1, 20);
        heif::gen_with(&mut r, &Opts { exif: b, bulk }, shared)
    };
    let shared = img.note.contains(&"shared-exif");
    let (_, orig) = heif::parse_full(&img.bytes).unwrap_or_else(|e| panic!("harness: {} {:?}", e, img.note));
    count_img(c, &img);
    c.add("items", orig.items.len() as u64);
    let ext = ext_for(&mut r, Kind::Heif);
    let mut cur = img.bytes.clone();
    let mut m0 = orig;
    let mut log: Vec<String> = vec![];
    let n0 = m0.items.len();
    let mut done = 0;
    for _ in 0..r.range(1, 4) {
        let api = pick_api(&mut r);
        let write = r.chance(3, 4);
        let (op, res) = if write {
            let g = meta_for(&mut r, Kind::Heif);
            log.push(format!("write {} tags", g.model.tags.len()));
            ("write", do_write(c, api, Kind::Heif, ext, &cur, &g.meta))
        } else {
            log.push("clear".into());
            ("clear", do_clear(c, api, Kind::Heif, ext, &cur))
        };
        let out = match res {
            Out::Ok(Res { err: None, bytes }) => bytes,
            Out::Ok(Res { err: Some(e), bytes }) => {
                if shared || unsupported(&img) && done == 0 {
                    c.count("documented_limit");
                    if bytes != cur {
                        c.violate(format!("heif refused {} changes the image", op), format!("{} {:?}", describe(&img, api), log), &[("image", &img.bytes), ("result", &bytes)]);
                    }
                } else {
                    c.violate(format!("heif {} fails: {}", op, classify(&e.to_string())), format!("{} {:?}: {}", describe(&img, api), log, e), &[("image", &img.bytes), ("before", &cur)]);
                }
                return;
            }
            Out::Panic(p) => {
                c.violate(format!("heif {} panics: {}", op, norm_panic(&p)), format!("{} {:?}: {}", describe(&img, api), log, p), &[("image", &img.bytes), ("before", &cur)]);
                return;
            }
        };
        c.count(&format!("op.{}", op));
        let blobs: [(&str, &[u8]); 3] = [("image", &img.bytes), ("before", &cur), ("result", &out)];
        let m1 = match heif::parse_full(&out) {
            Ok((_, m)) => m,
            Err(e) => {
                c.violate(format!("heif {}: result not resolvable: {}", op, classify(&e)), format!("{} {:?}: {}", describe(&img, api), log, e), &blobs);
                return;
            }
        };
        if shared {
            // whatever happens to the EXIF data, the other item keeps its bytes
            m0.parts.clear();
        }
        if let Some((k, d)) = items_diff(&m0, &if shared { heif::Meta { parts: vec![], ..m1.clone() } } else { m1.clone() }) {
            c.violate(format!("heif {}: {}", op, k), format!("{} {:?}: {}", describe(&img, api), log, d), &blobs);
            return;
        }
        c.add("items_resolved", m1.items.len() as u64);
        c.add("extents_resolved", m1.items.iter().map(|i| i.extents.len() as u64).sum());
        if write {
            if let Some((k, d)) = exif_ok(&m1, &m0).filter(|(k, _)| !shared || k != "EXIF item overlaps another item") {
                c.violate(format!("heif write: {}", k), format!("{} {:?}: {}", describe(&img, api), log, d), &blobs);
                return;
            }
        } else {
            let had = m0.items.iter().any(|i| &i.ty == b"Exif");
            if !had && out != cur {
                c.violate("heif clear changes an image without EXIF", format!("{} {:?}", describe(&img, api), log), &blobs);
                return;
            }
            // orientation and resolution of the image stay
            let keep = |k: &crate::exif::Key| k.0 == 0 && k.1 == crate::exif::G_IFD && [0x0112, 0x011a, 0x011b, 0x0128].contains(&k.2);
            let olds: Vec<_> = m0.items.iter().filter(|i| &i.ty == b"Exif").collect();
            if let ([old], 1) = (&olds[..], m1.items.iter().filter(|i| &i.ty == b"Exif").count()) {
                let new = m1.items.iter().find(|i| &i.ty == b"Exif").unwrap();
                let tags = |i: &heif::Item| carrier_model(&tiff_of(i)).ok().map(|mut m| {
                    m.tags.retain(|k, _| keep(k));
                    m.be = false; // the byte order is no part of it
                    m
                });
                if let Some(x) = tags(old).filter(|x| !x.tags.is_empty()) {
                    c.count("kept_display_tags");
                    let d = match tags(new) {
                        Some(y) => x.diff(&y, "before", "after"),
                        None => Some("the item is empty or undecodable".to_string()),
                    };
                    if let Some(d) = d {
                        c.violate("heif clear changes the tags needed to display the image", format!("{} {:?}: {}", describe(&img, api), log, d), &blobs);
                        return;
                    }
                }
            }
            for e in m1.items.iter().filter(|i| &i.ty == b"Exif") {
                let t = tiff_of(e);
                if t.is_empty() || t.len() <= 8 || t[4..8] == [0; 4] {
                    continue;
                }
                match carrier_model(&t) {
                    Ok(m) => {
                        if let Some(k) = m.tags.keys().find(|k| k.1 != 0 || ![0x0112, 0x011a, 0x011b, 0x0128].contains(&k.2)) {
                            c.violate("heif clear leaves EXIF tags behind", format!("{} {:?}: {}", describe(&img, api), log, crate::exif::show_key(k)), &blobs);
                            return;
                        }
                    }
                    Err(e) => {
                        c.violate("heif clear leaves an undecodable EXIF item", format!("{} {:?}: {}", describe(&img, api), log, e), &blobs);
                        return;
                    }
                }
            }
        }
        cur = out;
        m0 = m1;
        done += 1;
    }
    c.eval(n0 > 1, hash_bytes(&img.bytes) ^ hash_bytes(&cur).rotate_left(11));
    c.sample(|| format!("{} {:?}: {} items", describe(&img, Api::Vec), log, n0));
}
