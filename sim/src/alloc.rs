//! A counting global allocator: how much memory the process asked for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);

/// Requests above this are refused, so that a hostile length cannot exhaust the machine.
const REFUSE: usize = 12 << 30;

fn grew(by: usize, req: usize) {
    let c = CUR.fetch_add(by, Relaxed) + by;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
    }
    if req > BIGGEST.load(Relaxed) {
        BIGGEST.store(req, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grew(l.size(), l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grew(l.size(), l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        if in_arena(p) {
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        CUR.fetch_sub(l.size(), Relaxed);
        grew(n, n);
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        if in_arena(p) {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Resets the high-water marks; returns the current level.
pub fn mark() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    BIGGEST.store(0, Relaxed);
    c
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn biggest() -> usize {
    BIGGEST.load(Relaxed)
}

// ---------------------------------------------------------------- untouched zeros

const ARENA: usize = 6 << 30;
static START: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn in_arena(p: *mut u8) -> bool {
    let s = START.load(Relaxed);
    s != 0 && (s..s + ARENA).contains(&(p as usize))
}

/// Vectors of zeros whose memory is never touched while nobody writes to them.
pub struct Untouched;

impl Untouched {
    /// Maps the space, once; only one of these exists at a time, and what it made is gone before
    /// it is.
    pub fn new() -> Self {
        if START.load(Relaxed) == 0 {
            let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
            let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0) };
            assert!(p != libc::MAP_FAILED, "cannot map {ARENA} bytes");
            START.store(p as usize, Relaxed);
        }
        NEXT.store(START.load(Relaxed), Relaxed);
        Untouched
    }
    pub fn zeros(&self, n: usize) -> Vec<u8> {
        let p = NEXT.fetch_add(n, Relaxed);
        assert!(p + n <= START.load(Relaxed) + ARENA);
        grew(n, n);
        unsafe { Vec::from_raw_parts(p as *mut u8, n, n) }
    }
}

impl Drop for Untouched {
    fn drop(&mut self) {
        // Whatever was written to is zero again.
        unsafe { libc::madvise(START.load(Relaxed) as *mut libc::c_void, ARENA, libc::MADV_DONTNEED) };
    }
}
