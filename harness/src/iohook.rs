//! Interposed file system calls. The harness binary defines the libc symbols the
//! standard library uses, so every file access of the monitored code is seen:
//! opens are logged with their flags, and while armed, reads and writes may be
//! shortened or interrupted (which POSIX always allows) or made to fail.
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static SHORT: AtomicBool = AtomicBool::new(false);
static FAIL_READ_AT: AtomicI64 = AtomicI64::new(-1);
static FAIL_OPEN_AT: AtomicI64 = AtomicI64::new(-1);
static RNG: AtomicU64 = AtomicU64::new(1);
static READS: AtomicUsize = AtomicUsize::new(0);
static WRITES: AtomicUsize = AtomicUsize::new(0);
static SHORTENED: AtomicUsize = AtomicUsize::new(0);
static FAILED: AtomicUsize = AtomicUsize::new(0);
static OPENS: Mutex<Vec<(String, i32)>> = Mutex::new(Vec::new());
static OTHER: Mutex<Vec<String>> = Mutex::new(Vec::new());

#[derive(Clone, Copy, Default, Debug)]
pub struct Faults {
    /// shorten reads and writes and interrupt them, driven by this seed (0: off)
    pub short: u64,
    /// make the n-th read fail with EIO
    pub fail_read: Option<u32>,
    /// make the n-th open fail with EACCES
    pub fail_open: Option<u32>,
}
#[derive(Default, Debug)]
pub struct Seen {
    pub opens: Vec<(String, i32)>,
    pub other: Vec<String>,
    pub reads: usize,
    pub writes: usize,
    pub shortened: usize,
    pub failed: usize,
}
impl Seen {
    pub fn write_opens(&self) -> Vec<&String> {
        self.opens.iter().filter(|o| o.1 & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != libc::O_RDONLY).map(|o| &o.0).collect()
    }
}
pub fn watch<T>(f: Faults, body: impl FnOnce() -> T) -> (T, Seen) {
    OPENS.lock().unwrap().clear();
    OTHER.lock().unwrap().clear();
    for a in [&READS, &WRITES, &SHORTENED, &FAILED] {
        a.store(0, SeqCst);
    }
    RNG.store(f.short | 1, SeqCst);
    SHORT.store(f.short != 0, SeqCst);
    FAIL_READ_AT.store(f.fail_read.map_or(-1, |x| x as i64), SeqCst);
    FAIL_OPEN_AT.store(f.fail_open.map_or(-1, |x| x as i64), SeqCst);
    ON.store(true, SeqCst);
    let r = body();
    ON.store(false, SeqCst);
    let s = Seen {
        opens: std::mem::take(&mut *OPENS.lock().unwrap()),
        other: std::mem::take(&mut *OTHER.lock().unwrap()),
        reads: READS.load(SeqCst),
        writes: WRITES.load(SeqCst),
        shortened: SHORTENED.load(SeqCst),
        failed: FAILED.load(SeqCst),
    };
    (r, s)
}
fn rnd() -> u64 {
    let mut x = RNG.load(SeqCst);
    let v = crate::rng::splitmix(&mut x);
    RNG.store(x, SeqCst);
    v
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn path(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}
unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if ON.load(SeqCst) {
        let n = FAIL_OPEN_AT.load(SeqCst);
        if n >= 0 {
            FAIL_OPEN_AT.store(n - 1, SeqCst);
            if n == 0 {
                FAILED.fetch_add(1, SeqCst);
                set_errno(libc::EACCES);
                return -1;
            }
        }
        OPENS.lock().unwrap().push((path(p), flags));
    }
    libc::syscall(libc::SYS_openat, dir, p, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, p, flags | libc::O_LARGEFILE, mode)
}
/// length to use, or None for an interruption
fn shorten(n: usize) -> Option<usize> {
    if !SHORT.load(SeqCst) || n == 0 {
        return Some(n);
    }
    match rnd() % 6 {
        0 => {
            SHORTENED.fetch_add(1, SeqCst);
            Some(1)
        }
        1 => {
            SHORTENED.fetch_add(1, SeqCst);
            Some(1 + (rnd() as usize % n))
        }
        2 if rnd() % 4 == 0 => {
            SHORTENED.fetch_add(1, SeqCst);
            None
        }
        _ => Some(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, mut n: usize) -> isize {
    if ON.load(SeqCst) {
        READS.fetch_add(1, SeqCst);
        let k = FAIL_READ_AT.load(SeqCst);
        if k >= 0 {
            FAIL_READ_AT.store(k - 1, SeqCst);
            if k == 0 {
                FAILED.fetch_add(1, SeqCst);
                set_errno(libc::EIO);
                return -1;
            }
        }
        match shorten(n) {
            Some(k) => n = k,
            None => {
                set_errno(libc::EINTR);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_read, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, mut n: usize) -> isize {
    if ON.load(SeqCst) && fd > 2 {
        WRITES.fetch_add(1, SeqCst);
        match shorten(n) {
            Some(k) => n = k,
            None => {
                set_errno(libc::EINTR);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if ON.load(SeqCst) {
        OTHER.lock().unwrap().push(format!("unlink {}", path(p)));
    }
    libc::syscall(libc::SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if ON.load(SeqCst) {
        OTHER.lock().unwrap().push(format!("rename {} to {}", path(a), path(b)));
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
