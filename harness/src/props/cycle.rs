//! C22: read-edit-write cycles, also from one image to another.
//! C23: determinism, independence and absence of residue.
use crate::cont::{self, Img, Kind, Opts};
use crate::exif::*;
use crate::gen::*;
use crate::props::block::{classify, rat_eq};
use crate::props::image::*;
use crate::props::tiffprop::edit;
use crate::rng::*;
use crate::run::*;
use std::os::unix::ffi::OsStrExt;
use little_exif::metadata::Metadata;
use std::sync::atomic::Ordering::Relaxed;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            rule: "a case takes an image of one of six formats carrying foreign EXIF (any layout, byte order, several directories, thumbnails, strips, tags in convertible formats), and performs 1 to 4 hops: read, 0 to 5 edits (set, remove, everywhere or in one directory, thumbnail), write into the same image, or into another generated image of any format with its own EXIF; after each hop the carrier of the result is decoded by an independent decoder and the library's read-back is compared with the model: foreign content plus the edits; non-trivial: at least three tags carried; distinct by source block and result",
            assumptions: &["tags without a defined format for writing are dropped, as the tag table declares", "writing may fail only for EXIF that exceeds the 64 KiB JPEG segment"],
            quick: 100_000,
            thorough: 4_000_000,
            run: c22,
            min_nontrivial: 6_000,
        },
        Prop {
            id: "C23",
            rule: "a case performs one operation (read, write, clear, encode, export, APP12/13 clear; in memory or by path) on a generated, sample or damaged image, and repeats it: after a history of other operations, with an object (or a clone of it) that was encoded or written before its last edits, on other threads at the same time as other operations, and with another working directory; result bytes, metadata, and error must be equal each time; repeated calls must not retain memory, open descriptors, threads or files; non-trivial: the operation succeeds; distinct by input and result",
            assumptions: &["different operations running at the same time use different files"],
            quick: 60_000,
            thorough: 2_400_000,
            run: c23,
            min_nontrivial: 4_000,
        },
    ]
}

fn foreign(r: &mut Rng, tiff: bool) -> (Vec<u8>, u32) {
    loop {
        let pages = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
        let o = ForeignOpts { exceptions: r.chance(1, 3), max_tags: r.range(1, 9), pages, strips: tiff || r.chance(1, 8), text_terminated: r.chance(1, 2) };
        let mut t = gen_foreign(r, &o);
        if tiff {
            for d in t.pages.iter_mut() {
                make_tiff_page(r, d);
            }
        }
        let l = Layout::random(r);
        let b = write_foreign(&t, &l, r);
        if b.len() < 50_000 {
            return (b, pages as u32);
        }
    }
}
/// a rational recorded unsigned for a signed tag may come back as an equal fraction
fn adopt_fractions(want: &mut Model, have: &Model) {
    for (k, v) in want.tags.iter_mut() {
        if v[0].fmt == 10 && v.len() == 1 {
            if let Some(h) = have.tags.get(k) {
                if h.len() == 1 && h[0].fmt == 10 && h[0].data != v[0].data && rat_eq(&h[0].data, &v[0].data) && known(k.1, k.2).is_some() {
                    *v = h.clone();
                }
            }
        }
    }
}
fn c22(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let hops = r.range(1, 4);
    let mut kinds: Vec<Kind> = vec![pick_kind(&mut r, true)];
    let roam = r.chance(2, 3);
    for i in 0..hops {
        kinds.push(if roam && r.chance(1, 2) { pick_kind(&mut r, true) } else { kinds[i] });
    }
    let tiff = kinds.contains(&Kind::Tiff);
    let (block, pages) = foreign(&mut r, tiff);
    let mut want = ref_model(&block, &parse(&block).expect("harness: own block")).expect("harness: own block has a meaning");
    let mut img = match kinds[0] {
        Kind::Tiff => Img { kind: Kind::Tiff, bytes: block.clone(), note: vec![] },
        k => cont::gen(k, &mut r, &Opts { exif: vec![block.clone()], bulk: 800 }),
    };
    if unsupported(&img) {
        c.count("documented_limit");
        return;
    }
    count_img(c, &img);
    let first = img.bytes.clone();
    let mut log: Vec<String> = vec![describe(&img, Api::Vec)];
    let mut maxtags = 0;
    for (h, k) in kinds[1..].iter().enumerate() {
        let ext = ext_for(&mut r, img.kind);
        let rapi = pick_api(&mut r);
        let kn = img.kind.name();
        let mut m = match do_read(c, rapi, img.kind, ext, &img.bytes) {
            Out::Ok(Ok(m)) => m,
            Out::Ok(Err(_)) if want.tags.is_empty() && img.kind == Kind::Heif => return,
            Out::Ok(Err(e)) => {
                c.violate(format!("{} not readable in hop {}: {}", kn, h.min(1), classify(&e.to_string())), format!("{:?}: {}", log, e), &[("first", &first), ("image", &img.bytes)]);
                return;
            }
            Out::Panic(p) => {
                c.violate(format!("{} read panics: {}", kn, norm_panic(&p)), format!("{:?}: {}", log, p), &[("first", &first), ("image", &img.bytes)]);
                return;
            }
        };
        let have = model_of(&m);
        adopt_fractions(&mut want, &have);
        if let Some(d) = want.diff(&have, "expected", "read") {
            c.violate(format!("{} read differs in hop {}: {}", kn, h.min(1), classify(&d)), format!("{:?}: {}", log, d), &[("first", &first), ("image", &img.bytes)]);
            return;
        }
        c.add("tags_carried", want.tags.len() as u64);
        maxtags = maxtags.max(want.tags.len());
        // an encoding or a write made before the edits must leave no trace
        let early = r.chance(1, 4);
        for _ in 0..r.below(6) {
            if early && r.chance(1, 2) {
                c.count("early_encodings");
                let _ = c.call("early encode", 1 << 20, || m.encode().is_ok());
            }
            if !edit(c, &mut r, &mut m, &mut want, pages, &mut log) {
                c.violate("edit panics", format!("{:?}", log), &[("first", &first)]);
                return;
            }
            c.count("edits");
        }
        want = written(&want);
        if want.tags.is_empty() {
            c.count("nothing_left");
            return;
        }
        // the target: this image again, or another one
        let target = if *k == img.kind && r.chance(2, 3) {
            img.clone()
        } else {
            let b = rand_blocks(&mut r, *k, true);
            cont::gen(*k, &mut r, &Opts { exif: b, bulk: 800 })
        };
        if unsupported(&target) {
            c.count("documented_limit");
            return;
        }
        let api = pick_api(&mut r);
        log.push(format!("write to {}", describe(&target, api)));
        let ext = ext_for(&mut r, target.kind);
        let tn = target.kind.name();
        let blobs: Vec<(&str, &[u8])> = vec![("first", &first), ("source", &img.bytes), ("target", &target.bytes)];
        let out = match do_write(c, api, target.kind, ext, &target.bytes, &m) {
            Out::Ok(Res { err: None, bytes }) => bytes,
            Out::Ok(Res { err: Some(e), .. }) => {
                let big = target.kind == Kind::Jpeg && matches!(c.call("encode", 1 << 20, || m.encode()), Out::Ok(Ok(b)) if b.len() > 65_000);
                if big {
                    c.count("documented_limit");
                } else {
                    c.violate(format!("write of {} metadata into {} fails: {}", kn, tn, classify(&e.to_string())), format!("{:?}: {}", log, e), &blobs);
                }
                return;
            }
            Out::Panic(p) => {
                c.violate(format!("write of {} metadata into {} panics: {}", kn, tn, norm_panic(&p)), format!("{:?}: {}", log, p), &blobs);
                return;
            }
        };
        c.count(&format!("hop.{}-{}", kn, tn));
        let carriers = match cont::parse(target.kind, &out) {
            Ok(p) => p.carriers,
            Err(e) => {
                c.violate(format!("{} written with {} metadata is malformed: {}", tn, kn, classify(&e)), format!("{:?}: {}", log, e), &blobs);
                return;
            }
        };
        match carriers.first().ok_or("no carrier".to_string()).and_then(|b| carrier_model(b)) {
            Ok(got) => {
                if let Some(d) = want.diff(&got, "expected", "embedded") {
                    c.violate(format!("{} to {}: embedded EXIF differs: {}", kn, tn, classify(&d)), format!("{:?}: {}", log, d), &blobs);
                    return;
                }
            }
            Err(e) => {
                c.violate(format!("{} to {}: embedded EXIF not decodable: {}", kn, tn, classify(&e)), format!("{:?}: {}", log, e), &blobs);
                return;
            }
        }
        img = Img { kind: target.kind, bytes: out, note: target.note };
    }
    // and once more through the library
    match do_read(c, Api::Vec, img.kind, ext_for(&mut r, img.kind), &img.bytes) {
        Out::Ok(Ok(m)) => {
            if let Some(d) = want.diff(&model_of(&m), "expected", "read") {
                c.violate(format!("{} read differs at the end: {}", img.kind.name(), classify(&d)), format!("{:?}: {}", log, d), &[("first", &first), ("image", &img.bytes)]);
            }
        }
        Out::Ok(Err(e)) => c.violate(format!("{} not readable at the end: {}", img.kind.name(), classify(&e.to_string())), format!("{:?}: {}", log, e), &[("first", &first), ("image", &img.bytes)]),
        Out::Panic(p) => c.violate(format!("{} read panics: {}", img.kind.name(), norm_panic(&p)), format!("{:?}: {}", log, p), &[("first", &first), ("image", &img.bytes)]),
    }
    c.eval(maxtags >= 3, hash_bytes(&block) ^ hash_bytes(&img.bytes).rotate_left(9));
    c.sample(|| format!("{:?}: {}", log, want.describe()));
}

// ------------------------------------------------------------------- C23
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Read,
    Write,
    Clear,
    Encode,
    Export,
    App12,
    App13,
}
#[derive(Clone)]
struct Job {
    what: Do,
    api: Api,
    kind: Kind,
    ext: &'static str,
    bytes: Vec<u8>,
    meta: Option<Vec<(u8, u16, Val)>>,
    foreign: Option<Vec<u8>>,
    /// uses of the same object (or of a clone) before so many of the tags are set
    uses: Vec<(usize, bool, Option<Img>)>,
}
impl Job {
    fn describe(&self) -> String {
        format!("{:?} {:?} {} ({} bytes, {} tags)", self.what, self.api, self.kind.name(), self.bytes.len(), self.meta.as_ref().map_or(0, |m| m.len()))
    }
    /// deterministic construction: the object is rebuilt for every run
    fn metadata(&self) -> Metadata {
        let mut m = match &self.foreign {
            Some(b) => Metadata::new_from_vec(b, little_exif::filetype::FileExtension::TIFF).unwrap_or_default(),
            None => Metadata::new(),
        };
        let tags = self.meta.as_deref().unwrap_or(&[]);
        for i in 0..=tags.len() {
            for (_, cloned, img) in self.uses.iter().filter(|u| u.0.min(tags.len()) == i) {
                let mut k = m.clone();
                let o = if *cloned {
                    k.set_tag(little_exif::exif_tag::ExifTag::Orientation(vec![i as u16]));
                    &k
                } else {
                    &m
                };
                let _ = match img {
                    None => o.encode().is_ok(),
                    Some(x) => o.write_to_vec(&mut x.bytes.clone(), x.kind.ft()).is_ok(),
                };
            }
            if let Some((g, t, v)) = tags.get(i) {
                m.set_tag(make_tag(*g, *t, v));
            }
        }
        m
    }
    /// under a path whose file has the given time of modification
    fn run_stamped(&self, path: &std::path::Path, t: std::time::SystemTime) -> String {
        self.run_full(path, None, Some(t))
    }
    /// everything observable about one execution
    fn run(&self, path: &std::path::Path) -> String {
        self.run_at(path, None)
    }
    /// `real`: the same file under its plain name, where the result has to appear
    fn run_at(&self, path: &std::path::Path, real: Option<&std::path::Path>) -> String {
        self.run_full(path, real, None)
    }
    fn run_full(&self, path: &std::path::Path, real: Option<&std::path::Path>, time: Option<std::time::SystemTime>) -> String {
        let show = |r: Result<(), std::io::Error>, b: &[u8]| match r {
            Ok(()) => format!("ok {} {:016x}", b.len(), hash_bytes(b)),
            Err(e) => format!("error {:?} {} {} {:016x}", e.kind(), e.to_string().replace(&path.to_string_lossy().to_string(), "PATH"), b.len(), hash_bytes(b)),
        };
        let shm = |r: Result<Metadata, std::io::Error>| match r {
            Ok(m) => {
                let s = format!("{:?}", m);
                format!("metadata {} {:016x}", s.len(), hash_str(&s))
            }
            Err(e) => format!("error {:?} {}", e.kind(), e.to_string().replace(&path.to_string_lossy().to_string(), "PATH")),
        };
        let ft = self.kind.ft();
        match (self.what, self.api) {
            (Do::Encode, _) => match self.metadata().encode() {
                Ok(b) => show(Ok(()), &b),
                Err(e) => show(Err(e), &[]),
            },
            (Do::Export, _) => match self.metadata().as_u8_vec(ft) {
                Ok(b) => show(Ok(()), &b),
                Err(e) => show(Err(e), &[]),
            },
            (Do::Read, Api::Vec) => shm(Metadata::new_from_vec(&self.bytes, ft)),
            (w, Api::Vec) => {
                let mut v = self.bytes.clone();
                let x = match w {
                    Do::Write => self.metadata().write_to_vec(&mut v, ft),
                    Do::Clear => Metadata::clear_metadata(&mut v, ft),
                    Do::App12 => Metadata::clear_app12_segment(&mut v, ft),
                    _ => Metadata::clear_app13_segment(&mut v, ft),
                };
                show(x, &v)
            }
            (w, Api::Path) => {
                std::fs::write(path, &self.bytes).expect("harness: scratch file");
                if let Some(t) = time {
                    std::fs::File::options().write(true).open(path).and_then(|f| f.set_modified(t)).expect("harness: scratch file");
                }
                let o = match w {
                    Do::Read => shm(Metadata::new_from_path(path)),
                    _ => {
                        let x = match w {
                            Do::Write => self.metadata().write_to_file(path),
                            Do::Clear => Metadata::file_clear_metadata(path),
                            Do::App12 => Metadata::file_clear_app12_segment(path),
                            _ => Metadata::file_clear_app13_segment(path),
                        };
                        let at = real.filter(|p| path.is_symlink() || std::fs::canonicalize(p).ok() == std::fs::canonicalize(path).ok());
                        show(x, &std::fs::read(at.unwrap_or(path)).unwrap_or_default())
                    }
                };
                if real.is_none() {
                    std::fs::remove_file(path).ok();
                }
                o
            }
        }
    }
}
fn rand_job(r: &mut Rng) -> Job {
    let mut img = any_image(r, true, true);
    if r.chance(1, 4) {
        let n = r.range(1, 4);
        crate::mutate::mutate(r, &mut img.bytes, n);
    }
    let what = *r.pick(&[Do::Read, Do::Read, Do::Write, Do::Write, Do::Write, Do::Write, Do::Clear, Do::Clear, Do::Encode, Do::Export, Do::App12, Do::App13]);
    let n = r.range(0, 8);
    let meta = (0..n).map(|_| rand_tag(r, false, true)).collect();
    let foreign = if r.chance(1, 2) { Some(foreign(r, img.kind == Kind::Tiff).0) } else { None };
    Job { what, api: if r.chance(2, 5) { Api::Path } else { Api::Vec }, kind: img.kind, ext: ext_for(r, img.kind), bytes: img.bytes, meta: Some(meta), foreign, uses: vec![] }
}
fn fds() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| std::fs::read_link(e.path()).ok().map(|l| format!("{} {}", e.file_name().to_string_lossy(), l.display()))).collect()).unwrap_or_default();
    v.retain(|l| !l.contains("/proc/"));
    v.sort();
    v
}
fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
fn listing(p: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}
fn c23(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let j = rand_job(&mut r);
    let p = c.tmp(&format!("one.{}", j.ext));
    let len = j.bytes.len() + (1 << 20);
    let guard = |c: &mut Ctx, o: Out<String>| match o {
        Out::Ok(s) => Some(s),
        Out::Panic(_) => {
            c.count("panicked"); // C01, C02
            None
        }
    };
    let o = c.call(&format!("{:?}", j.what), len, || j.run(&p));
    let base = match guard(c, o) {
        Some(s) => s,
        None => return,
    };
    c.count(&format!("op.{:?}.{}", j.what, j.kind.name()));
    c.eval(!base.starts_with("error"), hash_bytes(&j.bytes) ^ hash_str(&base).rotate_left(5));
    c.sample(|| format!("{}: {}", j.describe(), base));
    let blobs: [(&str, &[u8]); 1] = [("image", &j.bytes)];
    let cls = format!("{:?} {}", j.what, j.kind.name());
    // residue of repeated calls
    if r.chance(1, 4) {
        let (f0, t0, l0) = (fds(), tasks(), listing(&c.scratch));
        let mut grew = 0;
        for _ in 0..4 {
            let before = crate::alloc::LIVE.load(Relaxed);
            let o = c.call(&format!("{:?} again", j.what), len, || drop(j.run(&p)));
            if let Out::Panic(_) = o {
                return;
            }
            // the scratch label and panic slot are the only other users of the heap
            if crate::alloc::LIVE.load(Relaxed) > before {
                grew += 1;
            }
        }
        c.add("residue_checks", 4);
        if grew == 4 {
            c.violate(format!("{} retains memory", cls), j.describe(), &blobs);
        }
        let f1 = fds();
        if f1 != f0 {
            c.violate(format!("{} leaves open descriptors", cls), format!("{}: {:?} became {:?}", j.describe(), f0, f1), &blobs);
        }
        if tasks() > t0 {
            c.violate(format!("{} leaves threads running", cls), j.describe(), &blobs);
        }
        let l1 = listing(&c.scratch);
        if l1 != l0 {
            c.violate(format!("{} leaves files behind", cls), format!("{}: {:?} became {:?}", j.describe(), l0, l1), &blobs);
        }
    }
    // after a history of other operations
    if r.chance(1, 2) {
        let n = r.range(1, 4);
        let q = c.tmp("hist");
        let mut names = vec![];
        for _ in 0..n {
            let h = rand_job(&mut r);
            names.push(h.describe());
            let q = q.with_extension(h.ext);
            let o = c.call("history", h.bytes.len() + (1 << 20), || h.run(&q));
            if guard(c, o).is_none() {
                return;
            }
        }
        let o = c.call(&format!("{:?} after history", j.what), len, || j.run(&p));
        c.count("compared.after_history");
        if let Some(s) = guard(c, o) {
            if s != base {
                c.violate(format!("{} depends on earlier operations", cls), format!("{}: {} became {} after {:?}", j.describe(), base, s, names), &blobs);
                return;
            }
        }
    }
    // with an object that was encoded or written (itself or as a changed clone) before
    if matches!(j.what, Do::Write | Do::Encode | Do::Export) && r.chance(1, 3) {
        let mut u = j.clone();
        let n = r.range(1, 3);
        u.uses = (0..n).map(|_| (r.below(10), r.chance(1, 3), if r.chance(1, 2) { None } else { Some(any_image(&mut r, true, true)) })).collect();
        let l = len + u.uses.iter().filter_map(|x| x.2.as_ref()).map(|i| i.bytes.len()).sum::<usize>();
        let o = c.call(&format!("{:?} with a used object", j.what), l, || u.run(&p));
        c.count("compared.used_object");
        if let Some(s) = guard(c, o) {
            if s != base {
                c.violate(format!("{} depends on earlier uses of the object", cls), format!("{}: {} became {} after {:?}", j.describe(), base, s, u.uses.iter().map(|x| (x.0, x.1, x.2.as_ref().map(|i| i.kind.name()))).collect::<Vec<_>>()), &blobs);
                return;
            }
        }
    }
    // under a path that held other files before
    if j.api == Api::Path && r.chance(1, 2) {
        let q = c.tmp(&format!("reused.{}", j.ext));
        let mut names = vec![];
        for _ in 0..r.range(1, 2) {
            let mut h = rand_job(&mut r);
            h.api = Api::Path;
            names.push(h.describe());
            let o = c.call("other file under the same path", h.bytes.len() + (1 << 20), || h.run(&q));
            if guard(c, o).is_none() {
                return;
            }
        }
        let o = c.call(&format!("{:?} under a reused path", j.what), len, || j.run(&q));
        c.count("compared.reused_path");
        if let Some(s) = guard(c, o) {
            if s != base {
                c.violate(format!("{} depends on what the path held before", cls), format!("{}: {} became {} after {:?}", j.describe(), base, s, names), &blobs);
                return;
            }
        }
    }
    // after a file of the same name, length and time that differs in some bytes
    if j.api == Api::Path && !j.bytes.is_empty() && r.chance(1, 3) {
        let q = c.tmp(&format!("twin.{}", j.ext));
        let mut t = j.clone();
        t.what = if r.chance(2, 3) { j.what } else { Do::Read };
        let at = j.bytes.windows(4).position(|w| w == b"II*\0" || w == b"MM\0*").unwrap_or(0);
        match r.below(3) {
            0 if j.foreign.is_none() => {
                // another value, nothing else
                for _ in 0..r.range(1, 6) {
                    let k = r.range(at, j.bytes.len() - 1);
                    t.bytes[k] = r.u8();
                }
            }
            1 if at > 0 => t.bytes[at..at + 4].copy_from_slice(if j.bytes[at] == b'I' { b"MM\0*" } else { b"II*\0" }),
            _ => {
                let k = r.range(at, j.bytes.len() - 1);
                t.bytes[k] ^= 1 << r.below(8);
            }
        }
        let stamp = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
        let o = c.call("file of the same length under the same path", len, || t.run_stamped(&q, stamp));
        if guard(c, o).is_none() {
            return;
        }
        let o = c.call(&format!("{:?} after a file of the same length", j.what), len, || j.run_stamped(&q, stamp));
        c.count("compared.same_length");
        if let Some(s) = guard(c, o) {
            if s != base {
                c.violate(format!("{} depends on what the path held before", cls), format!("{}: {} became {} after {:?} of a file of the same length", j.describe(), base, s, t.what), &blobs);
                return;
            }
        }
    }
    // at the same time as others: the same and other operations on other files
    if r.chance(1, 4) {
        let n = r.range(2, 5);
        let jobs: Vec<Job> = (0..n).map(|_| if r.chance(1, 2) { j.clone() } else { rand_job(&mut r) }).collect();
        let mut want = vec![];
        for (i, h) in jobs.iter().enumerate() {
            let q = c.tmp(&format!("solo{}.{}", i, h.ext));
            let o = c.call("solo", h.bytes.len() + (1 << 20), || h.run(&q));
            match guard(c, o) {
                Some(s) => want.push(s),
                None => return,
            }
        }
        let total: usize = jobs.iter().map(|h| h.bytes.len() + (50 << 20) / 100).sum();
        let dir = c.scratch.clone();
        let o = c.call("concurrent", total + (1 << 20), || {
            let bar = std::sync::Barrier::new(jobs.len());
            std::thread::scope(|s| {
                let hs: Vec<_> = jobs
                    .iter()
                    .enumerate()
                    .map(|(i, h)| {
                        let (bar, dir) = (&bar, &dir);
                        s.spawn(move || {
                            let q = dir.join(format!("conc{}.{}", i, h.ext));
                            bar.wait();
                            (0..3).map(|_| h.run(&q)).collect::<Vec<String>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
            })
        });
        if let Out::Ok(res) = o {
            c.count("concurrent_groups");
            for (i, x) in res.into_iter().enumerate() {
                match x {
                    Ok(v) => {
                        c.add("compared.concurrent", v.len() as u64);
                        if let Some(s) = v.iter().find(|s| **s != want[i]) {
                            c.violate(format!("{:?} {} depends on concurrent operations", jobs[i].what, jobs[i].kind.name()), format!("{}: {} became {} beside {:?}", jobs[i].describe(), want[i], s, jobs.iter().map(|j| j.describe()).collect::<Vec<_>>()), &[("image", &jobs[i].bytes)]);
                        }
                    }
                    Err(_) => c.violate(format!("{:?} {} panics only beside concurrent operations", jobs[i].what, jobs[i].kind.name()), jobs[i].describe(), &[("image", &jobs[i].bytes)]),
                }
            }
        }
    }
    // through other spellings of the path: detours and links to the file
    if j.api == Api::Path && r.chance(1, 3) {
        let (kind, q) = match r.below(4) {
            0 => {
                std::fs::create_dir_all(c.scratch.join("sub")).expect("harness: scratch directory");
                ("detour", c.scratch.join("sub").join("..").join(".").join(format!("one.{}", j.ext)))
            }
            1 => {
                let d = c.scratch.join(std::ffi::OsStr::from_bytes(b"d\xff\xfe.png"));
                std::fs::create_dir_all(&d).expect("harness: scratch directory");
                ("odd directory name", d.join(format!("one.{}", j.ext)))
            }
            2 => ("link to the directory", {
                let d = c.scratch.join("dirlink.jpg");
                std::fs::remove_file(&d).ok();
                std::os::unix::fs::symlink(&c.scratch, &d).expect("harness: link");
                d.join(format!("one.{}", j.ext))
            }),
            _ => ("link to the file", {
                let d = c.scratch.join(format!("link.{}", j.ext));
                std::fs::remove_file(&d).ok();
                std::os::unix::fs::symlink(&p, &d).expect("harness: link");
                d
            }),
        };
        let o = c.call(kind, len, || j.run_at(&q, Some(&p)));
        c.count("compared.other_spelling");
        let s = guard(c, o);
        if kind == "link to the file" {
            let still = q.symlink_metadata().is_ok_and(|m| m.file_type().is_symlink());
            if !still {
                c.violate(format!("{} replaces a link by a file", cls), j.describe(), &blobs);
            }
        }
        std::fs::remove_file(&p).ok();
        std::fs::remove_file(c.scratch.join("dirlink.jpg")).ok();
        std::fs::remove_file(c.scratch.join(format!("link.{}", j.ext))).ok();
        std::fs::remove_dir_all(c.scratch.join("sub")).ok();
        std::fs::remove_dir_all(c.scratch.join(std::ffi::OsStr::from_bytes(b"d\xff\xfe.png"))).ok();
        if let Some(s) = s {
            if s != base {
                c.violate(format!("{} depends on how the path is spelt: {}", cls, kind), format!("{}: {} became {}", j.describe(), base, s), &blobs);
                return;
            }
        }
    }
    // with a relative path from another working directory
    if j.api == Api::Path && r.chance(1, 4) {
        let here = std::env::current_dir();
        let name = format!("one.{}", j.ext);
        if std::env::set_current_dir(&c.scratch).is_ok() {
            let o = c.call("relative path", len, || j.run(std::path::Path::new(&name)));
            if let Ok(h) = here {
                std::env::set_current_dir(h).ok();
            }
            c.count("compared.relative_path");
            if let Some(s) = guard(c, o) {
                if s != base {
                    c.violate(format!("{} depends on how the path is spelt", cls), format!("{}: {} became {}", j.describe(), base, s), &blobs);
                }
            }
        }
    }
}
