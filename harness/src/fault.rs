// Fault injection for file system calls. The functions below are linked in place of libc's, so the
// library under test calls them. They only interfere on a thread with an active plan and for files
// below the plan's directory.
use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_void, CStr};

extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
pub const EIO: i32 = 5;
pub const EINTR: i32 = 4;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// the operation fails with this errno (a write after writing a part)
    Fail(i32),
    /// the process "dies" in this operation: a part of a write happens, nothing else afterwards
    Crash,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub dir: String,
    /// operation number that goes wrong
    pub at: Option<(usize, Kind)>,
    /// part of a write that still happens, in 1/256
    pub part: usize,
    /// harmless trouble: writes and reads transfer at most that many bytes; every n-th is interrupted
    pub short: usize,
    pub intr: usize,
    pub ops: usize,
    pub crashed: bool,
    pub hit: bool,
    pub fds: Vec<c_int>,
    pub log: Vec<String>,
}

impl Plan {
    pub fn new(dir: &str) -> Plan {
        Plan { dir: dir.to_string(), at: None, part: 0, short: 0, intr: 0, ops: 0, crashed: false, hit: false, fds: vec![], log: vec![] }
    }
}

thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
}

pub fn with_plan<T>(p: Plan, f: impl FnOnce() -> T) -> (T, Plan) {
    PLAN.with(|x| *x.borrow_mut() = Some(p));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let p = PLAN.with(|x| x.borrow_mut().take()).unwrap();
    match r {
        Ok(r) => (r, p),
        Err(e) => std::panic::resume_unwind(e),
    }
}

macro_rules! real {
    ($n: literal, $t: ty) => {{
        static mut F: Option<$t> = None;
        unsafe {
            if F.is_none() {
                let p = dlsym(RTLD_NEXT, concat!($n, "\0").as_ptr() as *const c_char);
                F = Some(std::mem::transmute::<*mut c_void, $t>(p));
            }
            F.unwrap()
        }
    }};
}

fn err(e: i32) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}

enum Do {
    Go,
    Short(usize),
    Err(i32),
    PartThenErr(usize, i32),
}

/// what is to happen to an operation
fn step(op: &str, write: bool, read: bool, path: Option<&str>, fd: Option<c_int>, len: usize) -> Do {
    let r = PLAN.try_with(|x| {
        let Ok(mut x) = x.try_borrow_mut() else { return Do::Go };
        let Some(p) = x.as_mut() else { return Do::Go };
        if let Some(path) = path {
            if !path.starts_with(&p.dir) {
                return Do::Go;
            }
        } else if let Some(fd) = fd {
            if !p.fds.contains(&fd) {
                return Do::Go;
            }
        }
        if p.crashed {
            return Do::Err(EIO);
        }
        let n = p.ops;
        p.ops += 1;
        p.log.push(format!("{} {}", op, if let Some(x) = path { x.rsplit('/').next().unwrap_or("").to_string() } else { format!("{} bytes", len) }));
        if let Some((at, k)) = p.at {
            if at == n {
                p.hit = true;
                let part = if write { len * p.part / 256 } else { 0 };
                return match k {
                    Kind::Fail(e) => {
                        // a first part is written, the rest of it fails in the next call
                        if part > 0 {
                            p.at = Some((n + 1, k));
                            p.part = 0;
                            Do::Short(part)
                        } else {
                            Do::Err(e)
                        }
                    }
                    Kind::Crash => {
                        p.crashed = true;
                        if part > 0 {
                            Do::PartThenErr(part, EIO)
                        } else {
                            Do::Err(EIO)
                        }
                    }
                };
            }
        }
        if write || read {
            if p.intr > 0 && n % p.intr == 1 {
                return Do::Err(EINTR);
            }
            if p.short > 0 && len > p.short {
                return Do::Short(p.short);
            }
        }
        Do::Go
    });
    r.unwrap_or(Do::Go)
}

fn opened(path: &str, fd: c_int) {
    let _ = PLAN.try_with(|x| {
        if let Ok(mut x) = x.try_borrow_mut() {
            if let Some(p) = x.as_mut() {
                if fd >= 0 && path.starts_with(&p.dir) && !p.fds.contains(&fd) {
                    p.fds.push(fd);
                }
            }
        }
    });
}
fn active() -> bool {
    PLAN.try_with(|x| x.try_borrow().map(|x| x.is_some()).unwrap_or(false)).unwrap_or(false)
}
unsafe fn st(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let f = real!("open64", unsafe extern "C" fn(*const c_char, c_int, ...) -> c_int);
    if !active() {
        return f(path, flags, mode);
    }
    let p = st(path);
    match step("open", false, false, Some(&p), None, 0) {
        Do::Err(e) | Do::PartThenErr(_, e) => err(e),
        _ => {
            let fd = f(path, flags, mode);
            opened(&p, fd);
            fd
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let f = real!("write", unsafe extern "C" fn(c_int, *const c_void, usize) -> isize);
    if !active() {
        return f(fd, b, n);
    }
    match step("write", true, false, None, Some(fd), n) {
        Do::Go => f(fd, b, n),
        Do::Short(k) => f(fd, b, k.min(n)),
        Do::Err(e) => err(e) as isize,
        Do::PartThenErr(k, e) => {
            f(fd, b, k.min(n));
            err(e) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let f = real!("read", unsafe extern "C" fn(c_int, *mut c_void, usize) -> isize);
    if !active() {
        return f(fd, b, n);
    }
    match step("read", false, true, None, Some(fd), n) {
        Do::Go => f(fd, b, n),
        Do::Short(k) => f(fd, b, k.min(n)),
        Do::Err(e) | Do::PartThenErr(_, e) => err(e) as isize,
    }
}
macro_rules! simple2 {
    ($n: ident, $s: literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *const c_char, b: *const c_char) -> c_int {
            let f = real!($s, unsafe extern "C" fn(*const c_char, *const c_char) -> c_int);
            if !active() {
                return f(a, b);
            }
            match step($s, false, false, Some(&st(b)), None, 0) {
                Do::Go | Do::Short(_) => f(a, b),
                Do::Err(e) | Do::PartThenErr(_, e) => err(e),
            }
        }
    };
}
macro_rules! simple1 {
    ($n: ident, $s: literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *const c_char) -> c_int {
            let f = real!($s, unsafe extern "C" fn(*const c_char) -> c_int);
            if !active() {
                return f(a);
            }
            match step($s, false, false, Some(&st(a)), None, 0) {
                Do::Go | Do::Short(_) => f(a),
                Do::Err(e) | Do::PartThenErr(_, e) => err(e),
            }
        }
    };
}
macro_rules! fdop {
    ($n: ident, $s: literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: c_int) -> c_int {
            let f = real!($s, unsafe extern "C" fn(c_int) -> c_int);
            if !active() {
                return f(a);
            }
            match step($s, false, false, None, Some(a), 0) {
                Do::Go | Do::Short(_) => f(a),
                Do::Err(e) | Do::PartThenErr(_, e) => err(e),
            }
        }
    };
}
simple2!(rename, "rename");
simple2!(link, "link");
simple1!(unlink, "unlink");
fdop!(fsync, "fsync");
fdop!(fdatasync, "fdatasync");

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = real!("ftruncate64", unsafe extern "C" fn(c_int, i64) -> c_int);
    if !active() {
        return f(fd, n);
    }
    match step("ftruncate", false, false, None, Some(fd), 0) {
        Do::Go | Do::Short(_) => f(fd, n),
        Do::Err(e) | Do::PartThenErr(_, e) => err(e),
    }
}
