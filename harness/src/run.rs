//! Worker/supervisor runtime: case execution under monitors (panic capture,
//! memory budget, CPU-time watchdog), event counters, violations, evidence.
use crate::alloc;
use crate::rng::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, Ordering::SeqCst};
use std::time::Instant;

pub const HANG_CPU_NS: i64 = 10_000_000_000; // 10 s of CPU time inside one library call, plus 1 s per MB
static HANG_EXTRA_NS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
    /// minimum number of non-trivial evaluations for the run to be conclusive
    pub min_nontrivial: u64,
}
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub case: u64,
    pub blobs: Vec<(String, Vec<u8>)>,
}
pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub case: u64,
    pub rng: Rng,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub scratch: PathBuf,
    pub viols: Vec<Violation>,
    pub seen: HashSet<String>,
    progress: i32,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ARMED_AT: AtomicI64 = AtomicI64::new(-1);
static MAIN_TID: AtomicI32 = AtomicI32::new(0);
static QUIET: AtomicBool = AtomicBool::new(true);

pub enum Out<T> {
    Ok(T),
    Panic(String),
}
impl<T> Out<T> {
    pub fn panicked(&self) -> Option<&str> {
        match self {
            Out::Panic(s) => Some(s),
            _ => None,
        }
    }
}

fn thread_cpu_ns() -> i64 {
    // CPU time of the calling thread
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}
fn proc_cpu_ns() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{} @ {}", msg.replace('\n', " "), loc);
        if !QUIET.load(SeqCst) {
            eprintln!("panic: {}", full);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(full));
    }));
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// record one evaluated case; `key` identifies what makes it distinct
    pub fn eval(&mut self, nontrivial: bool, key: u64) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut t = s();
            if t.len() > 600 {
                let mut n = 600;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
            }
            self.samples.push(t);
        }
    }
    pub fn violate(&mut self, sig: impl Into<String>, detail: impl Into<String>, blobs: &[(&str, &[u8])]) {
        let sig = sig.into();
        self.count("violations_raw");
        if self.seen.len() >= 40 || !self.seen.insert(sig.clone()) {
            return;
        }
        let mut d: String = detail.into();
        if d.len() > 3000 {
            let mut n = 3000;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
        }
        self.viols.push(Violation {
            sig,
            detail: d,
            case: self.case,
            blobs: blobs.iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect(),
        });
    }
    fn note(&self, label: &str) {
        let mut buf = [b' '; 80];
        buf[0..8].copy_from_slice(&self.case.to_le_bytes());
        let n = label.len().min(72);
        buf[8..8 + n].copy_from_slice(&label.as_bytes()[..n]);
        unsafe {
            libc::pwrite(self.progress, buf.as_ptr() as *const libc::c_void, 80, 0);
        }
    }
    /// Run library code under the monitors. `input_len` scales the memory budget.
    pub fn call<T>(&mut self, label: &str, input_len: usize, f: impl FnOnce() -> T) -> Out<T> {
        self.note(label);
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        HANG_EXTRA_NS.store(input_len as i64 * 1000, SeqCst);
        ARMED_AT.store(proc_cpu_ns(), SeqCst);
        alloc::arm((48 << 20) + input_len * 100);
        let r = catch_unwind(AssertUnwindSafe(f));
        alloc::disarm();
        ARMED_AT.store(-1, SeqCst);
        match r {
            Ok(v) => Out::Ok(v),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                self.count("panics_observed");
                Out::Panic(m)
            }
        }
    }
    pub fn tmp(&self, name: &str) -> PathBuf {
        self.scratch.join(name)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

/// panic text with volatile numbers removed: stable across runs and refactorings
pub fn norm_panic(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" @ ").unwrap_or((m, ""));
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars().take(90) {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('#');
            }
            last_digit = true;
        } else {
            out.push(c);
            last_digit = false;
        }
    }
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let file = file.rsplit("/src/").next().unwrap_or(file);
    format!("{} in {}", out, file)
}

pub fn case_rng(prop: &str, seed: u64, case: u64) -> Rng {
    let mut x = hash_str(prop) ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03);
    let a = splitmix(&mut x);
    Rng::new(a)
}

// ---------------------------------------------------------------- JSON
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn esc(s: &str) -> String {
    // one-line encoding for the worker->parent pipe files
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

// ---------------------------------------------------------------- worker
pub struct WorkerArgs {
    pub seed: u64,
    pub tier: Tier,
    pub start: u64,
    pub step: u64,
    pub end: u64,
    pub dir: PathBuf,
    pub wall_cap_s: u64,
    pub verbose: bool,
}

pub fn worker(p: &Prop, a: &WorkerArgs) -> i32 {
    install_hooks();
    log::set_logger(&SINK).ok();
    QUIET.store(!a.verbose, SeqCst);
    MAIN_TID.store(unsafe { libc::gettid() }, SeqCst);
    // watchdog on CPU time (not wall clock) spent inside one library call
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let at = ARMED_AT.load(SeqCst);
        if at >= 0 && proc_cpu_ns() - at > HANG_CPU_NS + HANG_EXTRA_NS.load(SeqCst) {
            let m = b"LX-HANG\n";
            unsafe {
                libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
                libc::_exit(79);
            }
        }
    });
    let scratch = a.dir.join(format!("scratch-{}", a.start));
    std::fs::create_dir_all(&scratch).unwrap();
    let progress_path = a.dir.join(format!("progress-{}", a.start));
    let pf = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&progress_path).unwrap();
    use std::os::fd::AsRawFd;
    let mut ctx = Ctx {
        prop: p.id,
        seed: a.seed,
        tier: a.tier,
        case: a.start,
        rng: Rng::new(0),
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        evals: 0,
        scratch: scratch.clone(),
        viols: vec![],
        seen: HashSet::new(),
        progress: pf.as_raw_fd(),
    };
    let mut vf = std::fs::OpenOptions::new().create(true).append(true).open(a.dir.join(format!("viol-{}", a.start))).unwrap();
    let t0 = Instant::now();
    let mut flush_at = Instant::now();
    let mut c = a.start;
    let mut harness_err = None;
    while c < a.end {
        if t0.elapsed().as_secs() > a.wall_cap_s {
            ctx.count("stopped_by_wall_cap");
            break;
        }
        ctx.case = c;
        ctx.rng = case_rng(p.id, a.seed, c);
        ctx.note("harness");
        let before = ctx.viols.len();
        let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
        if r.is_err() {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            harness_err = Some(format!("case {}: harness panic: {}", c, m));
            ctx.count("harness_errors");
            if a.verbose {
                eprintln!("{}", harness_err.as_ref().unwrap());
            }
            writeln!(vf, "E\t{}", esc(harness_err.as_ref().unwrap())).ok();
        }
        for v in ctx.viols.drain(..).collect::<Vec<_>>().into_iter().skip(0) {
            let _ = before;
            let bd = a.dir.join(format!("blob-{}-{:016x}", v.case, hash_str(&v.sig)));
            std::fs::create_dir_all(&bd).ok();
            for (n, b) in &v.blobs {
                std::fs::write(bd.join(n), b).ok();
            }
            writeln!(vf, "V\t{}\t{}\t{}\t{}", v.case, esc(&v.sig), esc(&v.detail), bd.display()).ok();
        }
        c += a.step;
        if flush_at.elapsed().as_millis() > 1500 {
            dump_state(&ctx, a, c);
            flush_at = Instant::now();
        }
    }
    dump_state(&ctx, a, c);
    std::fs::remove_dir_all(&scratch).ok();
    let _ = harness_err;
    0
}
fn dump_state(ctx: &Ctx, a: &WorkerArgs, next: u64) {
    let mut s = String::new();
    s.push_str(&format!("evals\t{}\nnext\t{}\n", ctx.evals, next));
    for (k, v) in &ctx.counters {
        s.push_str(&format!("c\t{}\t{}\n", esc(k), v));
    }
    for x in &ctx.samples {
        s.push_str(&format!("s\t{}\n", esc(x)));
    }
    let mut h = Vec::with_capacity(ctx.distinct.len() * 8);
    for d in &ctx.distinct {
        h.extend(d.to_le_bytes());
    }
    let p = a.dir.join(format!("state-{}", a.start));
    std::fs::write(a.dir.join(format!("hash-{}", a.start)), h).ok();
    std::fs::write(&p, s).ok();
}

struct Sink;
static SINK: Sink = Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // format the message so that the Display/Debug code in it runs too
        struct Null(usize);
        impl std::fmt::Write for Null {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut n = Null(0);
        let _ = std::fmt::Write::write_fmt(&mut n, *r.args());
    }
    fn flush(&self) {}
}
pub fn with_logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

// ---------------------------------------------------------------- parent
pub struct CheckArgs {
    pub seed: u64,
    pub tier: Tier,
    pub only: Option<u64>,
    pub jobs: u64,
    pub verif: PathBuf,
    pub cases: Option<u64>,
    pub verbose: bool,
    pub wall_cap_s: u64,
}

struct Agg {
    evals: u64,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    viols: BTreeMap<String, (u64, String, PathBuf)>,
    errors: Vec<String>,
}

fn spawn_worker(p: &Prop, a: &CheckArgs, dir: &Path, start: u64, step: u64, end: u64, cap: u64) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let err = std::fs::File::create(dir.join(format!("stderr-{}", start))).unwrap();
    let mut c = Command::new(exe);
    c.arg("worker").arg(p.id).arg(a.seed.to_string()).arg(if a.tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(start.to_string()).arg(step.to_string()).arg(end.to_string()).arg(dir).arg(cap.to_string());
    c.arg(if a.verbose { "1" } else { "0" });
    c.stdin(Stdio::null()).stdout(Stdio::null());
    if a.verbose {
        c.stderr(Stdio::inherit());
    } else {
        c.stderr(err);
    }
    c.spawn().unwrap()
}

fn read_progress(dir: &Path, start: u64) -> (u64, String) {
    match std::fs::read(dir.join(format!("progress-{}", start))) {
        Ok(b) if b.len() >= 80 => {
            let c = u64::from_le_bytes(b[0..8].try_into().unwrap());
            (c, String::from_utf8_lossy(&b[8..80]).trim().to_string())
        }
        _ => (start, "start".into()),
    }
}

fn collect(agg: &mut Agg, dir: &Path, start: u64) -> u64 {
    let mut next = start;
    if let Ok(s) = std::fs::read_to_string(dir.join(format!("state-{}", start))) {
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "evals" => agg.evals += f[1].parse::<u64>().unwrap_or(0),
                "next" => next = f[1].parse().unwrap_or(start),
                "c" => *agg.counters.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "s" => {
                    if agg.samples.len() < 12 {
                        agg.samples.push(unesc(f[1]))
                    }
                }
                _ => (),
            }
        }
    }
    if let Ok(h) = std::fs::read(dir.join(format!("hash-{}", start))) {
        for c in h.chunks_exact(8) {
            agg.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    if let Ok(s) = std::fs::read_to_string(dir.join(format!("viol-{}", start))) {
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f[0] == "V" && f.len() >= 5 {
                agg.viols
                    .entry(unesc(f[2]))
                    .or_insert((f[1].parse().unwrap_or(0), unesc(f[3]), PathBuf::from(f[4])));
            } else if f[0] == "E" && f.len() >= 2 {
                agg.errors.push(unesc(f[1]));
            }
        }
    }
    next
}

pub fn check(p: &Prop, a: &CheckArgs) -> i32 {
    let t0 = Instant::now();
    let base = std::env::temp_dir().join(format!("lx-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let total = a.cases.unwrap_or(if a.tier == Tier::Quick { p.quick } else { p.thorough });
    let (mut shards, step): (Vec<u64>, u64) = match a.only {
        Some(i) => (vec![i], 1),
        None => ((0..a.jobs).collect(), a.jobs),
    };
    let end = match a.only {
        Some(i) => i + 1,
        None => total,
    };
    shards.retain(|s| *s < end);
    let mut agg = Agg { evals: 0, counters: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], viols: BTreeMap::new(), errors: vec![] };
    let mut running: Vec<(u64, std::process::Child)> = vec![];
    for s in &shards {
        running.push((*s, spawn_worker(p, a, &base, *s, step, end, a.wall_cap_s)));
    }
    let mut deaths = 0;
    let mut inconclusive: Vec<String> = vec![];
    while let Some((s, mut ch)) = running.pop() {
        let st = ch.wait().unwrap();
        let _next = collect(&mut agg, &base, s);
        if st.success() {
            continue;
        }
        // abnormal end: attribute to the running case, confirm by a second run of that case alone
        deaths += 1;
        use std::os::unix::process::ExitStatusExt;
        let (case, label) = read_progress(&base, s);
        let why = describe(&st, &base, s);
        let d2 = base.join(format!("confirm-{}", case));
        std::fs::create_dir_all(&d2).unwrap();
        let mut c2 = spawn_worker(p, a, &d2, case, 1, case + 1, a.wall_cap_s);
        let st2 = c2.wait().unwrap();
        let (_, label2) = read_progress(&d2, case);
        let why2 = describe(&st2, &d2, case);
        collect(&mut agg, &d2, case);
        let lib_label = label2 != "harness" && label2 != "start";
        if !st2.success() && why == why2 && lib_label && st2.signal() != Some(libc::SIGKILL) {
            let sig = format!("{} during {}", why, label2);
            agg.viols.entry(sig).or_insert((case, format!("worker ended: {} (case {}, operation {}); confirmed by a second run", why, case, label2), d2.clone()));
        } else if st2.success() {
            // the case held when repeated: noted in the evidence, not a verdict either way
            *agg.counters.entry(format!("unrepeatable worker end: {} during {}", why, label)).or_insert(0) += 1;
        } else {
            inconclusive.push(format!("case {} ({} / {}) ended '{}' / '{}'", case, label, label2, why, why2));
        }
        if deaths < 12 && t0.elapsed().as_secs() < a.wall_cap_s + 60 {
            let nx = case + step;
            if nx < end && a.only.is_none() {
                let cap = a.wall_cap_s.saturating_sub(t0.elapsed().as_secs()).max(1);
                running.push((nx, spawn_worker(p, a, &base, nx, step, end, cap)));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // known findings
    let known = read_known(&a.verif, p.id);
    let mut rc = 0;
    let mut reported = 0;
    let repdir = a.verif.join("evidence").join("replay");
    std::fs::create_dir_all(&repdir).ok();
    for (sig, (case, detail, bd)) in &agg.viols {
        if let Some((_, text)) = known.iter().find(|(k, _)| k == sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, text);
            continue;
        }
        rc = 1;
        reported += 1;
        if reported > 12 {
            continue;
        }
        let stem = format!("{}-{:016x}", p.id, hash_str(sig));
        let rp = repdir.join(format!("{}.json", stem));
        let mut blobs = vec![];
        if let Ok(rd) = std::fs::read_dir(bd) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.starts_with("scratch") {
                    continue;
                }
                let t = repdir.join(format!("{}.{}", stem, n));
                if std::fs::copy(e.path(), &t).is_ok() {
                    blobs.push(jstr(&t.display().to_string()));
                }
            }
        }
        let j = format!(
            "{{\"property\":{},\"signature\":{},\"seed\":{},\"tier\":{},\"case\":{},\"detail\":{},\"blobs\":[{}],\"replay_cmd\":{}}}\n",
            jstr(p.id),
            jstr(sig),
            a.seed,
            jstr(if a.tier == Tier::Quick { "quick" } else { "thorough" }),
            case,
            jstr(detail),
            blobs.join(","),
            jstr(&format!("VERIF_SEED={} /verif/check.sh {} --tier {} --only {}", a.seed, p.id, if a.tier == Tier::Quick { "quick" } else { "thorough" }, case))
        );
        std::fs::write(&rp, j).ok();
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        println!("  signature: {}", sig);
        println!("  detail: {}", detail.replace('\n', "\n    "));
    }
    // evidence
    let nt = agg.distinct.len() as u64;
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        jstr(p.id),
        jstr(if a.tier == Tier::Quick { "quick" } else { "thorough" }),
        a.seed
    ));
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", agg.evals, nt, jstr(p.rule)));
    ev.push_str(&format!("  \"samples\": [{}],\n", agg.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str("  \"events\": {");
    ev.push_str(&agg.counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str(&format!(
        "}},\n  \"worker_deaths\": {},\n  \"inconclusive\": [{}]\n }},\n",
        deaths,
        inconclusive.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    ));
    ev.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall,
        reported
    ));
    if a.only.is_none() {
        std::fs::create_dir_all(a.verif.join("evidence")).ok();
        std::fs::write(a.verif.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    }
    std::fs::remove_dir_all(&base).ok();
    println!(
        "{}: evaluations={} distinct_nontrivial={} violations={} (raw {}) deaths={} wall={:.1}s",
        p.id,
        agg.evals,
        nt,
        reported,
        agg.counters.get("violations_raw").copied().unwrap_or(0),
        deaths,
        wall
    );
    if a.verbose || a.only.is_some() {
        for (k, v) in &agg.counters {
            println!("  {} = {}", k, v);
        }
    }
    if rc == 1 {
        return 1;
    }
    if !agg.errors.is_empty() {
        println!("HARNESS-ERROR: {} ({} in total)", agg.errors[0], agg.errors.len());
        return 2;
    }
    if !inconclusive.is_empty() {
        println!("INCONCLUSIVE: {}", inconclusive.join("; "));
        return 3;
    }
    if a.only.is_none() && nt < p.min_nontrivial {
        println!("INCONCLUSIVE: only {} distinct non-trivial cases observed (minimum {})", nt, p.min_nontrivial);
        return 4;
    }
    0
}
fn describe(st: &std::process::ExitStatus, dir: &Path, s: u64) -> String {
    use std::os::unix::process::ExitStatusExt;
    let err = std::fs::read_to_string(dir.join(format!("stderr-{}", s))).unwrap_or_default();
    if st.code() == Some(78) {
        return "memory budget exceeded".into();
    }
    if st.code() == Some(79) {
        return "no return within the CPU budget (hang)".into();
    }
    if err.contains("has overflowed its stack") {
        return "stack overflow".into();
    }
    if let Some(sig) = st.signal() {
        return format!("killed by signal {}", sig);
    }
    format!("exit status {:?}", st.code())
}
fn read_known(verif: &Path, prop: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> sig=<signature> :: <what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, rest)) = r.split_once(" sig=") {
                    if id == prop {
                        if let Some((sig, what)) = rest.split_once(" :: ") {
                            v.push((sig.to_string(), what.to_string()));
                        }
                    }
                }
            }
        }
    }
    v
}
#[allow(dead_code)]
#[allow(dead_code)]
pub fn unused_thread_cpu() -> i64 {
    thread_cpu_ns()
}
