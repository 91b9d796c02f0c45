//! Interface between the harnesses and whoever runs them: the symbolic executor (feature `sym`,
//! the functions are left undefined and interpreted by it) or a native run that reads the same
//! inputs from a tape.
#![allow(dead_code)]

#[cfg(feature = "sym")]
mod imp {
    extern "C-unwind" {
        pub fn xs_sym(bits: u64, lo: u64, hi: u64) -> u64;
        pub fn xs_fail(code: u64) -> !;
        pub fn xs_check(cond: u64, code: u64);
        pub fn xs_assume(cond: u64);
        pub fn xs_log(tag: u64, v: u64);
        pub fn xs_cover(code: u64);
        pub fn xs_fork(v: u64) -> u64;
        pub fn xs_heap_live() -> u64;
        pub fn xs_gap() -> u64;
        pub fn xs_note(tag: u64, v: u64);
        pub fn xs_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64;
    }
}

#[cfg(not(feature = "sym"))]
pub mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering};
    use std::sync::Mutex;
    pub struct Count;
    static LIVE: AtomicI64 = AtomicI64::new(0);
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Ordering::Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, Ordering::Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            System.realloc(p, l, n)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Ordering::Relaxed);
            System.alloc_zeroed(l)
        }
    }
    #[cfg(not(miri))]
    #[global_allocator]
    static GLOBAL: Count = Count;

    static TAPE: Mutex<(Vec<u64>, usize)> = Mutex::new((vec![], 0));
    pub static LOG: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
    pub fn set_tape(t: Vec<u64>) {
        *TAPE.lock().unwrap() = (t, 0);
        *LOG.lock().unwrap() = Vec::with_capacity(4096);
    }
    pub unsafe fn xs_sym(_bits: u64, lo: u64, hi: u64) -> u64 {
        let mut t = TAPE.lock().unwrap();
        let k = t.1;
        t.1 += 1;
        // a missing entry means the path ended before this input mattered
        let v = t.0.get(k).copied().unwrap_or(lo);
        if v < lo || v > hi {
            println!("TAPE {} {} {} {}", k, v, lo, hi);
            std::process::exit(99);
        }
        v
    }
    pub unsafe fn xs_fail(code: u64) -> ! {
        println!("FAIL check:{}", code);
        std::process::exit(77);
    }
    /// a leak seen once may be memory that a static holds for good: such a run is repeated in the
    /// same process, and what leaks again is a leak
    pub static LEAK: AtomicI64 = AtomicI64::new(0);
    pub unsafe fn xs_check(c: u64, code: u64) {
        if c == 0 {
            if code == 170 && LEAK.load(Ordering::Relaxed) == 0 {
                LEAK.store(1, Ordering::Relaxed);
                return;
            }
            if code == 170 && LEAK.load(Ordering::Relaxed) == 1 {
                return;
            }
            xs_fail(code)
        }
    }
    pub unsafe fn xs_assume(c: u64) {
        if c == 0 {
            println!("ASSUME");
            std::process::exit(98);
        }
    }
    pub unsafe fn xs_log(t: u64, v: u64) {
        LOG.lock().unwrap().push((t, v))
    }
    pub unsafe fn xs_cover(_: u64) {}
    pub unsafe fn xs_fork(v: u64) -> u64 {
        v
    }
    pub unsafe fn xs_gap() -> u64 {
        use std::sync::OnceLock;
        static G: OnceLock<u64> = OnceLock::new();
        *G.get_or_init(|| std::env::var("XS_GAP").ok().and_then(|x| x.parse().ok()).unwrap_or(0))
    }
    pub unsafe fn xs_heap_live() -> u64 {
        LIVE.load(Ordering::Relaxed) as u64
    }
    pub unsafe fn xs_note(_: u64, _: u64) {}
    pub unsafe fn xs_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d)));
        match r {
            Ok(()) => 0,
            Err(_) => 1,
        }
    }
}

/// a symbolic value of the given width within [lo, hi]
#[inline(never)]
pub fn sym(bits: u64, lo: u64, hi: u64) -> u64 {
    unsafe { imp::xs_sym(bits, lo, hi) }
}
/// a symbolic choice 0..n, one path per value
#[inline(never)]
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { imp::xs_fork(imp::xs_sym(8, 0, n as u64 - 1)) as usize }
}
#[inline(never)]
pub fn pick_in(lo: usize, hi: usize) -> usize {
    lo + pick(hi - lo + 1)
}
/// an arbitrary value of a component: the solver keeps it symbolic
pub fn v32() -> u32 {
    sym(32, 0, u32::MAX as u64) as u32
}
pub fn v8() -> u8 {
    sym(8, 0, 255) as u8
}
pub fn v64() -> u64 {
    sym(64, 0, u64::MAX)
}
#[inline(never)]
pub fn check(c: bool, code: u64) {
    unsafe { imp::xs_check(c as u64, code) }
}
#[inline(never)]
pub fn fail(code: u64) -> ! {
    unsafe { imp::xs_fail(code) }
}
pub fn assume(c: bool) {
    unsafe { imp::xs_assume(c as u64) }
}
pub fn log(tag: u64, v: u64) {
    unsafe { imp::xs_log(tag, v) }
}
pub fn cover(code: u64) {
    unsafe { imp::xs_cover(code) }
}
pub fn note(tag: u64, v: u64) {
    unsafe { imp::xs_note(tag, v) }
}
/// how many entities, created at once before anything else, lie in front of those the model counts
/// from 1 (an option of the job)
pub fn gap() -> usize {
    unsafe { imp::xs_gap() as usize }
}
pub fn heap_live() -> u64 {
    unsafe { imp::xs_heap_live() }
}

struct TryData<F, T> {
    f: Option<F>,
    r: Option<T>,
}
extern "C-unwind" fn tramp<F: FnOnce() -> T, T>(d: *mut u8) {
    let d = unsafe { &mut *(d as *mut TryData<F, T>) };
    let f = d.f.take().unwrap();
    d.r = Some(f());
}
/// Some(result), or None if the closure panicked
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let mut d = TryData { f: Some(f), r: None };
    let p = unsafe { imp::xs_try(tramp::<F, T>, &mut d as *mut TryData<F, T> as *mut u8) };
    if p != 0 {
        None
    } else {
        d.r.take()
    }
}
/// make a symbolic number concrete: one path per value it can have
pub fn fork(v: usize) -> usize {
    unsafe { imp::xs_fork(v as u64) as usize }
}
