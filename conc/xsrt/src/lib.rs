//! Interface between the concurrent harnesses, the stand-in for parking_lot, and whoever runs
//! them: the symbolic executor (feature `sym`), or a native run in which real threads take turns
//! as the tape says, by the executor's own scheduling rules.
#![allow(dead_code)]

#[cfg(feature = "sym")]
mod imp {
    extern "C-unwind" {
        pub fn xs_sym(bits: u64, lo: u64, hi: u64) -> u64;
        pub fn xs_fail(code: u64) -> !;
        pub fn xs_check(cond: u64, code: u64);
        pub fn xs_assume(cond: u64);
        pub fn xs_log(tag: u64, v: u64);
        pub fn xs_cover(code: u64);
        pub fn xs_fork(v: u64) -> u64;
        pub fn xs_heap_live() -> u64;
        pub fn xs_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64;
        pub fn xs_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64;
        pub fn xs_step(t: u64) -> u64;
        pub fn xs_run_all() -> u64;
        pub fn xs_lock(a: u64, m: u64);
        pub fn xs_try_lock(a: u64, m: u64) -> u64;
        pub fn xs_unlock(a: u64, m: u64);
        pub fn xs_yield();
    }
}

#[cfg(not(feature = "sym"))]
pub mod imp {
    use std::collections::HashMap;
    use std::sync::{Condvar, Mutex, MutexGuard};

    static TAPE: Mutex<(Vec<u64>, usize)> = Mutex::new((vec![], 0));
    pub static LOG: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
    pub fn set_tape(t: Vec<u64>) {
        *TAPE.lock().unwrap() = (t, 0);
    }
    pub unsafe fn xs_sym(_bits: u64, lo: u64, hi: u64) -> u64 {
        let mut t = TAPE.lock().unwrap();
        let k = t.1;
        t.1 += 1;
        let v = t.0.get(k).copied().unwrap_or(lo);
        if v < lo || v > hi {
            println!("TAPE {} {} {} {}", k, v, lo, hi);
            std::process::exit(99);
        }
        v
    }
    pub unsafe fn xs_fail(code: u64) -> ! {
        println!("FAIL check:{}", code);
        std::process::exit(77);
    }
    pub unsafe fn xs_check(c: u64, code: u64) {
        if c == 0 {
            xs_fail(code)
        }
    }
    pub unsafe fn xs_assume(c: u64) {
        if c == 0 {
            println!("ASSUME");
            std::process::exit(98);
        }
    }
    pub unsafe fn xs_log(t: u64, v: u64) {
        LOG.lock().unwrap().push((t, v))
    }
    pub unsafe fn xs_cover(_: u64) {}
    pub unsafe fn xs_fork(v: u64) -> u64 {
        v
    }
    pub unsafe fn xs_heap_live() -> u64 {
        0
    }
    pub unsafe fn xs_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))).is_err() as u64
    }

    // ---- threads take turns
    #[derive(Clone, Copy, PartialEq)]
    enum St {
        Run,
        Pend(u64, u64),
        Queue(u64, u64),
        Yield,
        Done,
    }
    #[derive(Clone, Copy, PartialEq)]
    enum Multi {
        No,
        Step(usize),
        All,
    }
    #[derive(Default)]
    struct L {
        readers: Vec<usize>,
        writer: Option<usize>,
        upg: Option<usize>,
    }
    struct Sched {
        st: Vec<St>,
        cur: usize,
        multi: Multi,
        status: u64,
        preempts: u64,
        max: u64,
        locks: Option<HashMap<u64, L>>,
    }
    static S: Mutex<Sched> = Mutex::new(Sched {
        st: vec![],
        cur: 0,
        multi: Multi::No,
        status: 0,
        preempts: 0,
        max: 1_000_000,
        locks: None,
    });
    static CV: Condvar = Condvar::new();
    thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
    pub fn init() {
        let mut s = S.lock().unwrap();
        s.st = vec![St::Run];
        s.locks = Some(HashMap::new());
        if let Some(m) = std::env::var("XS_PREEMPT").ok().and_then(|x| x.parse().ok()) {
            s.max = m;
        }
    }
    fn dead(why: &str) -> ! {
        println!("FAIL deadlock {}", why);
        std::process::exit(75)
    }
    impl Sched {
        fn grantable(&self, t: usize, a: u64, m: u64) -> bool {
            let e = L::default();
            let l = self.locks.as_ref().unwrap().get(&a).unwrap_or(&e);
            let queued =
                || self.st.iter().enumerate().any(|(i, x)| i != t && (*x == St::Queue(a, 1) || *x == St::Queue(a, 5)));
            match m {
                0 => l.writer.is_none() && !queued(),
                2 => l.writer.is_none(),
                4 => l.writer.is_none() && l.upg.is_none() && !queued(),
                5 => l.writer.is_none() && l.readers.is_empty(),
                _ => l.writer.is_none() && l.readers.is_empty() && l.upg.is_none(),
            }
        }
        fn acquire(&mut self, t: usize, a: u64, m: u64) {
            let l = self.locks.as_mut().unwrap().entry(a).or_default();
            match m {
                1 => l.writer = Some(t),
                4 => l.upg = Some(t),
                5 => {
                    l.upg = None;
                    l.writer = Some(t)
                }
                _ => l.readers.push(t),
            }
        }
        fn back(&mut self, status: u64) {
            self.cur = 0;
            self.multi = Multi::No;
            self.status = status;
        }
        fn reschedule(&mut self) {
            match self.multi {
                Multi::No => dead("nothing is running"),
                Multi::Step(t) => match self.st[t] {
                    St::Done => self.back(1),
                    St::Pend(a, m) | St::Queue(a, m) => {
                        if self.grantable(t, a, m) {
                            self.acquire(t, a, m);
                            self.st[t] = St::Run;
                            self.cur = t;
                        } else {
                            self.st[t] = St::Queue(a, m);
                            self.back(0)
                        }
                    }
                    _ => {
                        self.st[t] = St::Run;
                        self.cur = t;
                    }
                },
                Multi::All => loop {
                    let n = self.st.len();
                    let mut en = vec![];
                    for t in 1..n {
                        match self.st[t] {
                            St::Run | St::Yield | St::Pend(..) => en.push(t),
                            St::Queue(a, m) => {
                                if self.grantable(t, a, m) {
                                    en.push(t)
                                }
                            }
                            St::Done => {}
                        }
                    }
                    if en.is_empty() {
                        if (1..n).all(|t| self.st[t] == St::Done) {
                            return self.back(1);
                        }
                        dead("every unfinished thread waits for a lock");
                    }
                    let cur_en = en.contains(&self.cur);
                    let t = if en.len() == 1 || (cur_en && self.preempts >= self.max) {
                        if cur_en && en.len() > 1 {
                            self.cur
                        } else {
                            en[0]
                        }
                    } else {
                        if cur_en {
                            let c = self.cur;
                            en.retain(|x| *x != c);
                            en.insert(0, c);
                        }
                        let k = unsafe { xs_sym(8, 0, en.len() as u64 - 1) } as usize;
                        if cur_en && k != 0 {
                            self.preempts += 1;
                        }
                        en[k]
                    };
                    match self.st[t] {
                        St::Pend(a, m) | St::Queue(a, m) => {
                            if self.grantable(t, a, m) {
                                self.acquire(t, a, m);
                                self.st[t] = St::Run;
                            } else {
                                self.st[t] = St::Queue(a, m);
                                self.cur = t;
                                continue;
                            }
                        }
                        _ => self.st[t] = St::Run,
                    }
                    self.cur = t;
                    return;
                },
            }
        }
    }
    fn turn(mut s: MutexGuard<'static, Sched>) -> MutexGuard<'static, Sched> {
        let me = ME.with(|m| m.get());
        CV.notify_all();
        while s.cur != me {
            s = CV.wait(s).unwrap();
        }
        s
    }
    pub unsafe fn xs_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
        let mut s = S.lock().unwrap();
        let t = s.st.len();
        s.st.push(St::Yield);
        drop(s);
        let d = d as usize;
        std::thread::spawn(move || {
            ME.with(|m| m.set(t));
            drop(turn(S.lock().unwrap()));
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d as *mut u8))).is_err() {
                println!("FAIL panic");
                std::process::exit(76);
            }
            let mut s = S.lock().unwrap();
            s.st[t] = St::Done;
            s.reschedule();
            CV.notify_all();
        });
        t as u64
    }
    pub unsafe fn xs_step(t: u64) -> u64 {
        let mut s = S.lock().unwrap();
        s.multi = Multi::Step(t as usize);
        s.reschedule();
        turn(s).status
    }
    pub unsafe fn xs_run_all() -> u64 {
        let mut s = S.lock().unwrap();
        s.multi = Multi::All;
        s.preempts = 0;
        s.reschedule();
        turn(s).status
    }
    pub unsafe fn xs_lock(a: u64, m: u64) {
        let t = ME.with(|m| m.get());
        let mut s = S.lock().unwrap();
        if s.multi == Multi::No {
            if s.grantable(t, a, m) {
                s.acquire(t, a, m);
                return;
            }
            dead("the main thread waits for a lock that is held");
        }
        s.st[t] = St::Pend(a, m);
        s.reschedule();
        drop(turn(s));
    }
    pub unsafe fn xs_try_lock(a: u64, m: u64) -> u64 {
        let t = ME.with(|m| m.get());
        let mut s = S.lock().unwrap();
        let ok = s.grantable(t, a, m);
        if ok {
            s.acquire(t, a, m);
        }
        ok as u64
    }
    pub unsafe fn xs_unlock(a: u64, m: u64) {
        let t = ME.with(|m| m.get());
        let mut s = S.lock().unwrap();
        let l = s.locks.as_mut().unwrap().entry(a).or_default();
        let ok = match m {
            0 => match l.readers.iter().position(|x| *x == t).or(if l.readers.is_empty() { None } else { Some(0) }) {
                Some(p) => {
                    l.readers.remove(p);
                    true
                }
                None => false,
            },
            4 | 6 => l.upg.take().is_some(),
            _ => l.writer.take().is_some(),
        };
        if m == 3 || m == 6 {
            l.readers.push(t)
        }
        if m == 7 {
            l.upg = Some(t)
        }
        if !ok {
            println!("FAIL lock");
            std::process::exit(78);
        }
        let free = l.readers.is_empty() && l.writer.is_none() && l.upg.is_none();
        if free {
            s.locks.as_mut().unwrap().remove(&a);
        }
    }
    pub unsafe fn xs_yield() {
        let t = ME.with(|m| m.get());
        let mut s = S.lock().unwrap();
        if s.multi == Multi::No {
            return;
        }
        s.st[t] = St::Yield;
        s.reschedule();
        drop(turn(s));
    }
}

// ---- what the harnesses use
#[inline(never)]
pub fn sym(bits: u64, lo: u64, hi: u64) -> u64 {
    unsafe { imp::xs_sym(bits, lo, hi) }
}
#[inline(never)]
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { imp::xs_fork(imp::xs_sym(8, 0, n as u64 - 1)) as usize }
}
pub fn v32() -> u32 {
    sym(32, 0, u32::MAX as u64) as u32
}
#[inline(never)]
pub fn check(c: bool, code: u64) {
    unsafe { imp::xs_check(c as u64, code) }
}
#[inline(never)]
pub fn fail(code: u64) -> ! {
    unsafe { imp::xs_fail(code) }
}
pub fn assume(c: bool) {
    unsafe { imp::xs_assume(c as u64) }
}
pub fn log(tag: u64, v: u64) {
    unsafe { imp::xs_log(tag, v) }
}
pub fn cover(code: u64) {
    unsafe { imp::xs_cover(code) }
}
struct TryData<F, T> {
    f: Option<F>,
    r: Option<T>,
}
extern "C-unwind" fn tramp<F: FnOnce() -> T, T>(d: *mut u8) {
    let d = unsafe { &mut *(d as *mut TryData<F, T>) };
    let f = d.f.take().unwrap();
    d.r = Some(f());
}
/// Some(result), or None if the closure panicked
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let mut d = TryData { f: Some(f), r: None };
    let p = unsafe { imp::xs_try(tramp::<F, T>, &mut d as *mut TryData<F, T> as *mut u8) };
    if p != 0 {
        None
    } else {
        d.r.take()
    }
}

// ---- threads
/// a thread that runs `f(d)` once it is stepped or run; `d` must outlive it
pub fn spawn<T>(f: extern "C-unwind" fn(*mut u8), d: &mut T) -> u64 {
    unsafe { imp::xs_spawn(f, d as *mut T as *mut u8) }
}
/// let thread `t` run until it ends (true) or waits for a lock (false)
pub fn step(t: u64) -> bool {
    unsafe { imp::xs_step(t) != 0 }
}
/// let all threads run, in every order, to the end
pub fn run_all() {
    unsafe {
        imp::xs_run_all();
    }
}
// ---- for the stand-in of parking_lot
pub fn lock(a: u64, m: u64) {
    unsafe { imp::xs_lock(a, m) }
}
pub fn try_lock(a: u64, m: u64) -> bool {
    unsafe {
        imp::xs_yield();
        imp::xs_try_lock(a, m) != 0
    }
}
pub fn unlock(a: u64, m: u64) {
    unsafe { imp::xs_unlock(a, m) }
}
pub fn locked(a: u64) -> bool {
    unsafe {
        imp::xs_yield();
        if imp::xs_try_lock(a, 1) != 0 {
            imp::xs_unlock(a, 1);
            false
        } else {
            true
        }
    }
}
