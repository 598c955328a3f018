// An allocator that counts what a guarded piece of code takes from and gives back to the heap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TRACE: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<usize> = const { Cell::new(0) };
    static FREES: Cell<usize> = const { Cell::new(0) };
    static WHERE: Cell<Option<Box<String>>> = const { Cell::new(None) };
}

/// live bytes and blocks of the whole process, while somebody watches
pub static WATCH: AtomicBool = AtomicBool::new(false);
pub static BYTES: AtomicIsize = AtomicIsize::new(0);
pub static BLOCKS: AtomicIsize = AtomicIsize::new(0);

/// contents of memory that is not initialised or was freed
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xF5;
const FILL: usize = 1 << 16;

#[inline]
fn book(bytes: isize, blocks: isize) {
    if WATCH.load(Ordering::Relaxed) {
        BYTES.fetch_add(bytes, Ordering::Relaxed);
        BLOCKS.fetch_add(blocks, Ordering::Relaxed);
    }
}

#[cold]
fn hit(c: &'static std::thread::LocalKey<Cell<usize>>) {
    c.set(c.get() + 1);
    if TRACE.get() {
        TRACE.set(false);
        ON.set(false);
        let t = std::backtrace::Backtrace::force_capture().to_string();
        // the innermost function of the library
        let f = t
            .lines()
            .map(|l| l.trim())
            .filter(|l| l.contains("hexodsp::") && !l.contains("hxcheck::"))
            .next()
            .unwrap_or("?")
            .to_string();
        WHERE.set(Some(Box::new(f)));
        ON.set(true);
    }
}

unsafe impl GlobalAlloc for Counting {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.get() {
            hit(&ALLOCS);
        }
        book(l.size() as isize, 1);
        let p = System.alloc(l);
        if !p.is_null() && l.size() <= FILL {
            std::ptr::write_bytes(p, FRESH, l.size());
        }
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.get() {
            hit(&FREES);
        }
        book(-(l.size() as isize), -1);
        if l.size() <= FILL {
            std::ptr::write_bytes(p, DEAD, l.size());
            std::sync::atomic::compiler_fence(Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.get() {
            hit(&ALLOCS);
        }
        book(l.size() as isize, 1);
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.get() {
            hit(&ALLOCS);
        }
        book(n as isize - l.size() as isize, 0);
        System.realloc(p, l, n)
    }
}

/// what a guarded piece of code did that it must not do
pub struct Deeds {
    pub allocs: usize,
    pub frees: usize,
    pub printed: String,
    /// innermost library function of the first allocation
    pub place: String,
}

pub fn count<R>(f: impl FnOnce() -> R) -> (R, Deeds) {
    let text = std::sync::Arc::new(std::sync::Mutex::new(Vec::with_capacity(1 << 12)));
    std::io::set_output_capture(Some(text.clone()));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.set(false);
            std::io::set_output_capture(None);
        }
    }
    ALLOCS.set(0);
    FREES.set(0);
    WHERE.set(None);
    TRACE.set(true);
    let off = Off;
    ON.set(true);
    let r = f();
    drop(off);
    let printed = String::from_utf8_lossy(&text.lock().unwrap()).to_string();
    (r, Deeds { allocs: ALLOCS.get(), frees: FREES.get(), printed, place: WHERE.take().map(|b| *b).unwrap_or("?".into()) })
}
