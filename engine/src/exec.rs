//! The symbolic executor: runs one path at a time from the start of the harness, following a
//! recorded list of decisions, then extending it; every other feasible side of a new decision is
//! queued as a new path.  Feasibility and assertions are decided by Z3.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Debug)]
pub enum Stop {
    /// property failure candidate on this path: kind, detail
    Fail(String, String),
    Assume,
    Done,
    /// outside what the engine encodes: never reported as success
    Incon(String),
}
pub type R<T> = Result<T, Stop>;

impl From<MemErr> for Stop {
    fn from(e: MemErr) -> Stop {
        Stop::Fail("mem".into(), e.0)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct D {
    pub v: u64,
    pub forced: bool,
}

#[derive(Clone, Debug)]
pub struct Work {
    pub dec: Vec<D>,
    pub model: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intr {
    None,
    Nop,
    Panic,
    Abort,
    Memcpy(bool),
    Memset,
    Bcmp,
    Strlen,
    Ctlz,
    Cttz,
    Ctpop,
    UMulO,
    SMulO,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    Fshl,
    Fshr,
    Abs,
    Bswap,
    Bitrev,
    Ucmp,
    Scmp,
    IsConst,
    Assume,
    TlsAddr,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    PosixMemalign,
    HashKeys,
    Nothing0,
    LockSlow(u8),
    XsSym,
    XsFail,
    XsCheck,
    XsAssume,
    XsLog,
    XsCover,
    XsFork,
    XsHeapLive,
    XsGap,
    XsHeapBytes,
    XsTry,
    XsSpawn,
    XsStep,
    XsRunAll,
    XsLock,
    XsUnlock,
    XsTryLock,
    XsYield,
    XsNote,
    ThreadPanicking,
    PanicZero,
    CatchCleanup,
    Sat(bool, bool),
    Reduce(u8),
    Float(FOp),
    /// decimal text of an unsigned number of so many bits; Debug looks at its flags first
    Digits(u32, bool),
}

fn intr_of(n: &str) -> Intr {
    use Intr::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return if st("memcpy") {
            Memcpy(false)
        } else if st("memmove") {
            Memcpy(true)
        } else if st("memset") {
            Memset
        } else if st("ctlz") {
            Ctlz
        } else if st("cttz") {
            Cttz
        } else if st("ctpop") {
            Ctpop
        } else if st("umul.with") {
            UMulO
        } else if st("smul.with") {
            SMulO
        } else if st("uadd.with") {
            UAddO
        } else if st("sadd.with") {
            SAddO
        } else if st("usub.with") {
            USubO
        } else if st("ssub.with") {
            SSubO
        } else if st("umax") {
            UMax
        } else if st("umin") {
            UMin
        } else if st("smax") {
            SMax
        } else if st("smin") {
            SMin
        } else if st("uadd.sat") {
            UAddSat
        } else if st("usub.sat") {
            USubSat
        } else if st("sadd.sat") {
            Sat(true, true)
        } else if st("ssub.sat") {
            Sat(false, true)
        } else if st("ushl.sat") {
            Sat(true, false)
        } else if st("vector.reduce.") {
            let k = r["vector.reduce.".len()..].split('.').next().unwrap_or("");
            match k {
                "add" => Reduce(0),
                "mul" => Reduce(1),
                "and" => Reduce(2),
                "or" => Reduce(3),
                "xor" => Reduce(4),
                "umax" => Reduce(5),
                "umin" => Reduce(6),
                "smax" => Reduce(7),
                "smin" => Reduce(8),
                _ => None,
            }
        } else if let Some(k) = FOp::named(r) {
            Float(k)
        } else if st("fshl") {
            Fshl
        } else if st("fshr") {
            Fshr
        } else if st("abs") {
            Abs
        } else if st("bswap") {
            Bswap
        } else if st("bitreverse") {
            Bitrev
        } else if st("ucmp") {
            Ucmp
        } else if st("scmp") {
            Scmp
        } else if st("is.constant") {
            IsConst
        } else if st("assume") {
            Assume
        } else if st("threadlocal.address") {
            TlsAddr
        } else if st("trap") {
            Abort
        } else if st("lifetime") || st("experimental.noalias") || st("x86.sse2.pause") || st("dbg") || st("prefetch") {
            Nop
        } else {
            None
        };
    }
    match n {
        "xs_sym" => return XsSym,
        "xs_fail" => return XsFail,
        "xs_check" => return XsCheck,
        "xs_assume" => return XsAssume,
        "xs_log" => return XsLog,
        "xs_cover" => return XsCover,
        "xs_fork" => return XsFork,
        "xs_heap_live" => return XsHeapLive,
        "xs_gap" => return XsGap,
        "xs_heap_bytes" => return XsHeapBytes,
        "xs_try" => return XsTry,
        "xs_spawn" => return XsSpawn,
        "xs_step" => return XsStep,
        "xs_run_all" => return XsRunAll,
        "xs_lock" => return XsLock,
        "xs_unlock" => return XsUnlock,
        "xs_try_lock" => return XsTryLock,
        "xs_yield" => return XsYield,
        "xs_note" => return XsNote,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "free" => return Free,
        "realloc" => return CRealloc,
        "posix_memalign" => return PosixMemalign,
        "bcmp" | "memcmp" => return Bcmp,
        "strlen" => return Strlen,
        "abort" => return Abort,
        "memcpy" => return Memcpy(false),
        "memmove" => return Memcpy(true),
        "memset" => return Memset,
        "__cxa_thread_atexit_impl" | "sched_yield" => return Nothing0,
        _ => {}
    }
    if !n.starts_with("_R") {
        return match FOp::named(n) {
            Some(k) if !n.contains('.') => Float(k),
            _ => None,
        };
    }
    let has = |s: &str| n.contains(s);
    if n.ends_with("___rustc12___rust_alloc") {
        return Alloc;
    }
    if n.ends_with("___rustc19___rust_alloc_zeroed") {
        return AllocZ;
    }
    if n.ends_with("___rustc14___rust_dealloc") {
        return Dealloc;
    }
    if n.ends_with("___rustc14___rust_realloc") {
        return Realloc;
    }
    if n.ends_with("___rustc35___rust_no_alloc_shim_is_unstable_v2") {
        return Nothing0;
    }
    if has("hashmap_random_keys") {
        return HashKeys;
    }
    if has("4core9panicking") {
        if has("panic_nounwind") || has("panic_cannot_unwind") || has("panic_in_cleanup") || has("panic_null_pointer") || has("panic_misaligned") || has("panic_invalid_enum") {
            return Abort;
        }
        if has("9panic_fmt") {
            return Panic;
        }
    }
    if n.ends_with("___rustc17rust_begin_unwind") || n.ends_with("___rustc10rust_panic") {
        return Panic;
    }
    if has("3std9panicking") && (has("begin_panic") || has("resume_unwind") || has("rust_panic_with_hook")) && !n.starts_with("_RNC") && !n.starts_with("_RNS") {
        return Panic;
    }
    if has("4core3fmt3num") {
        for (k, w) in [("h", 8), ("t", 16), ("m", 32), ("y", 64), ("j", 64)] {
            for (tr, dbg) in [("_7Display3fmt", false), ("_5Debug3fmt", true)] {
                // ...3fmt3num3impjNtB9_7Display3fmt, ...3fmt3numjNtB7_5Debug3fmt (and clones, .203)
                let base = n.split('.').next().unwrap_or(n);
                if base.ends_with(tr) && (base.contains(&format!("3num3imp{}Nt", k)) || base.contains(&format!("3fmt3num{}Nt", k))) {
                    return Digits(w, dbg);
                }
            }
        }
    }
    if has("11panic_count17is_zero_slow_path") {
        return PanicZero;
    }
    if has("3std9panicking") && (has("12catch_unwind7cleanup") || has("3try7cleanup")) {
        return CatchCleanup;
    }
    if has("3std9panicking") && n.ends_with("9panicking") {
        return ThreadPanicking;
    }
    if has("10raw_rwlock") || has("9raw_mutex") {
        if has("lock_shared_slow") {
            return LockSlow(0);
        }
        if has("lock_exclusive_slow") || has("9raw_mutex8RawMutex9lock_slow") || (has("9raw_mutex") && has("9lock_slow")) {
            return LockSlow(1);
        }
        if has("lock_upgradable_slow") || has("upgrade_slow") {
            return LockSlow(2);
        }
    }
    None
}

struct Frame {
    f: u32,
    block: u32,
    prev: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    /// the call instruction in the caller to resume (dst, invoke targets)
    dst: Option<u32>,
    inv: Option<(u32, u32)>,
    is_try: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TSt {
    Run,
    /// at a lock acquisition (address, mode)
    Pend(u64, u8),
    Queue(u64, u8),
    Yield,
    Done,
}

struct Thread {
    frames: Vec<Frame>,
    st: TSt,
    unwinding: Option<V>,
    /// panics of this thread that nothing has caught yet
    panics: u64,
}

#[derive(Default, Clone)]
struct LockSt {
    readers: Vec<u8>,
    writer: Option<u8>,
    /// upgradable reader
    upg: Option<u8>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assume_paths: u64,
    pub decisions: u64,
    pub forks: u64,
    pub insts: u64,
    pub checks: u64,
    pub checks_solved: u64,
    pub checks_simplified: u64,
    pub queries: u64,
    pub qhits: u64,
    pub solver_ms: f64,
    pub solver_max_ms: f64,
    pub max_insts: u64,
    pub max_depth: u64,
    pub sched_points: u64,
    pub sat: u64,
    pub unsat: u64,
}

#[derive(Clone)]
pub struct Found {
    pub kind: String,
    pub detail: String,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub tape: Vec<u64>,
    pub log: Vec<(u32, u64)>,
    pub insts: u64,
}

#[derive(Clone)]
pub struct Cfg {
    pub step_limit: u64,
    pub max_vals: usize,
    pub ite_max: usize,
    pub preempt: u64,
    /// entities in front of those a harness uses
    pub gap: u64,
    pub sample_every: u64,
    pub max_samples: usize,
    pub timeout_ms: u32,
    pub max_found: usize,
}

struct QCache {
    map: HashMap<Vec<E>, Option<Rc<Vec<(u32, u64)>>>>,
}

pub struct Exec {
    m: &'static Module,
    intr: Vec<Intr>,
    pub ar: Arena,
    z3: Z3,
    mem: Mem,
    cfg: Cfg,
    cache: QCache,
    // per path
    pc: Vec<E>,
    bind: FxMap<E, u128>,
    dec: Vec<D>,
    dpos: usize,
    nprefix: usize,
    model: Vec<u64>,
    vars: Vec<(E, u64, u64)>,
    nuninit: u32,
    log: Vec<(u32, V)>,
    insts: u64,
    threads: Vec<Thread>,
    cur: usize,
    multi: Option<MultiMode>,
    preempts: u64,
    locks: BTreeMap<u64, LockSt>,
    tls: HashMap<(usize, u64), u64>,
    errno: u64,
    panic_count: Option<u64>,
    pad_integral: Option<u32>,
    pool: Vec<Vec<V>>,
    notes: Vec<String>,
    // results
    pub out: Vec<Work>,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub incon: Vec<(String, Vec<u64>)>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<u32, u64>,
    pub fcov: Vec<bool>,
    pub bcov: Vec<Vec<bool>>,
    seq: u64,
    args: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum MultiMode {
    /// run one given thread until it blocks or ends
    Step(usize),
    /// run all spawned threads under every schedule
    All,
}

enum Flow {
    Next,
    Jump,
}

impl Exec {
    pub fn new(m: &'static Module, cfg: Cfg, args: Vec<u64>) -> Exec {
        Exec {
            m,
            intr: m.funcs.iter().map(|f| intr_of(&f.name)).collect(),
            ar: Arena::new(),
            z3: Z3::new(cfg.timeout_ms),
            mem: Mem::new(m),
            cache: QCache { map: HashMap::new() },
            pc: vec![],
            bind: Default::default(),
            dec: vec![],
            dpos: 0,
            nprefix: 0,
            model: vec![],
            vars: vec![],
            nuninit: 0,
            log: vec![],
            insts: 0,
            threads: vec![],
            cur: 0,
            multi: None,
            preempts: 0,
            locks: Default::default(),
            tls: Default::default(),
            errno: 0,
            panic_count: m.globals.iter().position(|g| g.name.contains("11panic_count18GLOBAL_PANIC_COUNT")).map(global_addr),
            pad_integral: m.funcs.iter().position(|f| f.defined && f.params.len() == 6 && f.name.ends_with("9Formatter12pad_integral")).map(|x| x as u32),
            pool: vec![],
            notes: vec![],
            out: vec![],
            stats: Default::default(),
            found: vec![],
            incon: vec![],
            samples: vec![],
            covers: Default::default(),
            fcov: vec![false; m.funcs.len()],
            bcov: m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect(),
            seq: 0,
            cfg,
            args,
        }
    }

    // ------------------------------------------------------------ solver
    fn slice(&self, extra: &[E]) -> Vec<E> {
        let mut vs: VarSet = [0; 4];
        let mut add = |vs: &mut VarSet, s: &VarSet| {
            for i in 0..4 {
                vs[i] |= s[i]
            }
        };
        for e in extra {
            add(&mut vs, &self.ar.vars[*e as usize]);
        }
        let mut taken = vec![false; self.pc.len()];
        let mut out: Vec<E> = extra.to_vec();
        loop {
            let mut ch = false;
            for (i, c) in self.pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = &self.ar.vars[*c as usize];
                if (0..4).any(|k| s[k] & vs[k] != 0) {
                    taken[i] = true;
                    out.push(*c);
                    let s = *s;
                    add(&mut vs, &s);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }
    /// is pc && extra satisfiable?  Some(model updates)
    fn sat(&mut self, extra: &[E]) -> R<Option<Rc<Vec<(u32, u64)>>>> {
        if extra.iter().any(|e| *e == self.ar.f) {
            return Ok(None);
        }
        let key = self.slice(extra);
        if let Some(r) = self.cache.map.get(&key) {
            self.stats.qhits += 1;
            return Ok(r.clone());
        }
        let r = match self.z3.check(&self.ar, &key, true) {
            Ans::Sat(m) => {
                self.stats.sat += 1;
                Some(Rc::new(m))
            }
            Ans::Unsat => {
                self.stats.unsat += 1;
                None
            }
            Ans::Unknown => return Err(Stop::Incon("solver gave no answer in its time limit".into())),
        };
        self.cache.map.insert(key, r.clone());
        Ok(r)
    }
    fn merged(&self, upd: &[(u32, u64)]) -> Vec<u64> {
        let mut m = self.model.clone();
        for (k, v) in upd {
            let k = *k as usize;
            if m.len() <= k {
                m.resize(k + 1, 0);
            }
            m[k] = *v;
        }
        m
    }
    fn learn(&mut self, e: E, v: bool) {
        self.bind.insert(e, v as u128);
        match self.ar.node(e) {
            Node::Not(x) => self.learn(x, !v),
            Node::Bin(BinOp::And, a, b) if v => {
                self.learn(a, true);
                self.learn(b, true);
            }
            Node::Bin(BinOp::Or, a, b) if !v => {
                self.learn(a, false);
                self.learn(b, false);
            }
            Node::Cmp(CmpK::Eq, a, b) if v => {
                if let Some(c) = self.ar.konst(b) {
                    self.bind_eq(a, c);
                }
            }
            _ => {
                let n = self.ar.not(e);
                if n != e {
                    self.bind.insert(n, !v as u128);
                }
            }
        }
    }
    fn bind_eq(&mut self, a: E, c: u128) {
        self.bind.insert(a, c);
        match self.ar.node(a) {
            Node::Zext(x) => self.bind_eq(x, c),
            _ => {}
        }
    }
    fn assume_e(&mut self, e: E, v: bool) {
        let c = if v { e } else { self.ar.not(e) };
        self.pc.push(c);
        self.learn(e, v);
    }
    fn known(&self, e: E) -> Option<bool> {
        if let Some(c) = self.ar.konst(e) {
            return Some(c != 0);
        }
        self.bind.get(&e).map(|v| *v != 0)
    }
    fn has_uninit(&self, e: E) -> bool {
        let v = &self.ar.vars[e as usize];
        v[2] | v[3] != 0
    }
    fn rename_uninit(&mut self, e: E, map: &mut HashMap<E, E>) -> E {
        if !self.has_uninit(e) {
            return e;
        }
        if let Some(x) = map.get(&e) {
            return *x;
        }
        let (n, w) = self.ar.nodes[e as usize];
        let r = match n {
            Node::Const(_) => e,
            Node::Var(k) => {
                if k >= UNINIT_BASE {
                    self.ar.var(k + 64 + (1 << 18), w)
                } else {
                    e
                }
            }
            Node::Bin(o, a, b) => {
                let (a, b) = (self.rename_uninit(a, map), self.rename_uninit(b, map));
                self.ar.bin(o, a, b)
            }
            Node::Cmp(o, a, b) => {
                let (a, b) = (self.rename_uninit(a, map), self.rename_uninit(b, map));
                self.ar.cmp(o, a, b)
            }
            Node::Not(a) => {
                let a = self.rename_uninit(a, map);
                self.ar.not(a)
            }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (self.rename_uninit(c, map), self.rename_uninit(a, map), self.rename_uninit(b, map));
                self.ar.ite(c, a, b)
            }
            Node::Concat(a, b) => {
                let (a, b) = (self.rename_uninit(a, map), self.rename_uninit(b, map));
                self.ar.concat(a, b)
            }
            Node::Extract(a, lo) => {
                let a = self.rename_uninit(a, map);
                self.ar.extract(a, lo, w)
            }
            Node::Zext(a) => {
                let a = self.rename_uninit(a, map);
                self.ar.zext(a, w)
            }
            Node::Sext(a) => {
                let a = self.rename_uninit(a, map);
                self.ar.sext(a, w)
            }
        };
        map.insert(e, r);
        r
    }
    fn uninit_dep(&mut self, e: E) -> R<()> {
        if !self.has_uninit(e) {
            return Ok(());
        }
        let mut map = HashMap::new();
        let r = self.rename_uninit(e, &mut map);
        let q = self.ar.cmp(CmpK::Eq, e, r);
        let q = self.ar.not(q);
        if let Some(m) = self.sat(&[q])? {
            self.model = self.merged(&m);
            return Err(Stop::Fail("uninit".into(), "a decision depends on uninitialised memory".into()));
        }
        Ok(())
    }
    fn push_work(&mut self, v: u64, model: Vec<u64>) {
        let mut dec = self.dec[..self.dpos].to_vec();
        dec.push(D { v, forced: false });
        self.out.push(Work { dec, model });
        self.stats.forks += 1;
    }
    fn decide(&mut self, e: E) -> R<bool> {
        if let Some(v) = self.known(e) {
            return Ok(v);
        }
        if self.dpos < self.nprefix {
            let d = self.dec[self.dpos];
            self.dpos += 1;
            let v = d.v != 0;
            if d.forced {
                self.learn(e, v)
            } else {
                self.assume_e(e, v)
            }
            return Ok(v);
        }
        self.uninit_dep(e)?;
        self.stats.decisions += 1;
        let m = std::mem::take(&mut self.model);
        let v = self.ar.eval(e, &m, true) != 0;
        self.model = m;
        let other = if v { self.ar.not(e) } else { e };
        let r = self.sat(&[other])?;
        let forced = r.is_none();
        if let Some(upd) = r {
            let m = self.merged(&upd);
            self.push_work(!v as u64, m);
        }
        self.dec.push(D { v: v as u64, forced });
        self.dpos += 1;
        self.nprefix = self.dpos;
        if forced {
            self.learn(e, v)
        } else {
            self.assume_e(e, v)
        }
        Ok(v)
    }
    /// all feasible values of e (sorted) with a model each, at most max
    fn values(&mut self, e: E, max: usize) -> R<Option<Vec<(u128, Rc<Vec<(u32, u64)>>)>>> {
        let mut out: Vec<(u128, Rc<Vec<(u32, u64)>>)> = vec![];
        let mut ex: Vec<E> = vec![];
        let mut lv = vec![];
        if self.ar.leaves(e, &mut lv) {
            lv.sort();
            lv.dedup();
            for l in lv {
                let q = self.ar.eqc(e, l);
                if self.known(q) == Some(false) {
                    continue;
                }
                if let Some(m) = self.sat(&[q])? {
                    out.push((l, m));
                }
            }
            return Ok(Some(out));
        }
        // smallest value first would need optimisation; any order, sorted at the end
        loop {
            let mut q = ex.clone();
            if q.is_empty() {
                // force the expression's variables into the slice
                let tt = self.ar.cmp(CmpK::Ule, e, e);
                let _ = tt;
                let m = self.model.clone();
                let v = self.ar.eval(e, &m, true);
                let c = self.ar.eqc(e, v);
                match self.sat(&[c])? {
                    Some(mm) => {
                        out.push((v, mm));
                        let n = self.ar.not(c);
                        ex.push(n);
                        continue;
                    }
                    None => return Err(Stop::Incon("model does not satisfy its path".into())),
                }
            }
            q.sort();
            match self.sat(&q)? {
                None => break,
                Some(mm) => {
                    let m = self.merged(&mm);
                    let v = self.ar.eval(e, &m, true);
                    let c = self.ar.eqc(e, v);
                    out.push((v, mm));
                    let n = self.ar.not(c);
                    ex.push(n);
                    if out.len() > max {
                        return Ok(None);
                    }
                }
            }
        }
        out.sort_by_key(|x| x.0);
        Ok(Some(out))
    }
    fn concretize(&mut self, e: E) -> R<u128> {
        if let Some(c) = self.ar.konst(e) {
            return Ok(c);
        }
        if let Some(c) = self.bind.get(&e) {
            return Ok(*c);
        }
        if self.dpos < self.nprefix {
            let d = self.dec[self.dpos];
            self.dpos += 1;
            let c = self.ar.eqc(e, d.v as u128);
            if d.forced {
                self.learn(c, true)
            } else {
                self.assume_e(c, true);
            }
            self.bind_eq(e, d.v as u128);
            return Ok(d.v as u128);
        }
        if self.ar.w(e) > 64 {
            return Err(Stop::Incon("concretising a wide value".into()));
        }
        self.uninit_dep(e)?;
        self.stats.decisions += 1;
        let max = self.cfg.max_vals;
        let vs = match self.values(e, max)? {
            Some(v) => v,
            None => return Err(Stop::Incon(format!("more than {} values to concretise", max))),
        };
        if vs.is_empty() {
            return Err(Stop::Incon("no value feasible".into()));
        }
        for (v, m) in vs.iter().skip(1).rev() {
            let mm = self.merged(m);
            self.push_work(*v as u64, mm);
        }
        let (v, m) = vs[0].clone();
        self.model = self.merged(&m);
        let forced = vs.len() == 1;
        self.dec.push(D { v: v as u64, forced });
        self.dpos += 1;
        self.nprefix = self.dpos;
        let c = self.ar.eqc(e, v);
        if forced {
            self.learn(c, true)
        } else {
            self.assume_e(c, true)
        }
        self.bind_eq(e, v);
        Ok(v)
    }
    fn new_var(&mut self, w: u32, lo: u64, hi: u64) -> E {
        let k = self.vars.len() as u32;
        let e = self.ar.var(k, w);
        self.vars.push((e, lo, hi));
        if self.model.len() <= k as usize {
            self.model.resize(k as usize + 1, lo);
        }
        let mv = self.model[k as usize];
        if mv < lo || mv > hi {
            self.model[k as usize] = lo;
        }
        let full = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        if lo > 0 {
            let l = self.ar.cst(lo as u128, w);
            let c = self.ar.cmp(CmpK::Ule, l, e);
            self.pc.push(c);
        }
        if hi < full {
            let h = self.ar.cst(hi as u128, w);
            let c = self.ar.cmp(CmpK::Ule, e, h);
            self.pc.push(c);
        }
        e
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn opv(fr: &Frame, o: &Op) -> V {
        match o {
            Op::C(c) => V::C(*c),
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::A(v) => V::A(Rc::new(v.iter().map(|x| Self::opv(fr, x)).collect())),
        }
    }
    #[inline]
    fn val(&self, o: &Op) -> V {
        let t = &self.threads[self.cur];
        let v = Self::opv(t.frames.last().unwrap(), o);
        if let V::S(e) = v {
            if let Some(c) = self.bind.get(&e) {
                return V::C(*c);
            }
        }
        v
    }
    fn ve(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.ar.cst(*c, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate where a scalar was expected"),
        }
    }
    fn sv(&self, e: E) -> V {
        match self.ar.konst(e) {
            Some(c) => V::C(c),
            None => match self.bind.get(&e) {
                Some(c) => V::C(*c),
                None => V::S(e),
            },
        }
    }
    fn conc(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c as u64),
            V::S(e) => Ok(self.concretize(*e)? as u64),
            V::A(_) => Err(Stop::Incon("aggregate".into())),
        }
    }
    fn cval(&mut self, o: &Op) -> R<u64> {
        let v = self.val(o);
        self.conc(&v)
    }
    #[inline]
    fn set(&mut self, r: u32, v: V) {
        let t = &mut self.threads[self.cur];
        t.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn tags_to_v(&mut self, tags: &[(u32, u8)], w: u32) -> V {
        let mut acc: Option<E> = None;
        for (t, b) in tags {
            let e = match t {
                0 => self.ar.cst(*b as u128, 8),
                1 => {
                    self.nuninit += 1;
                    self.ar.var(UNINIT_BASE + self.nuninit, 8)
                }
                t => *t - 2,
            };
            acc = Some(match acc {
                None => e,
                Some(a) => self.ar.concat(e, a),
            });
        }
        let mut e = acc.unwrap();
        if w < self.ar.w(e) {
            e = self.ar.extract(e, 0, w);
        }
        self.sv(e)
    }
    fn load_c(&mut self, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = vec![];
                if let Ty::Vec(n, t) = ty {
                    if t.bits() < 8 {
                        // packed bit vector
                        let x = self.load_c(addr, &Ty::Int(*n as u32 * t.bits()))?;
                        return self.unpack(&x, *n as u32, t.bits());
                    }
                }
                for i in 0..ty.count() {
                    v.push(self.load_c(addr + ty.field_off(i), ty.elem(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as u64;
                match self.mem.load(addr, n)? {
                    Ok(c) => Ok(V::C(mask(c, w))),
                    Err(tags) => Ok(self.tags_to_v(&tags, w)),
                }
            }
        }
    }
    fn store_c(&mut self, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() < 8 {
                        let x = self.pack(v, t.bits());
                        return self.store_c(addr, &Ty::Int(ty.bits()), &x);
                    }
                }
                if let V::A(vs) = v {
                    for i in 0..ty.count() {
                        self.store_c(addr + ty.field_off(i), ty.elem(i), &vs[i])?;
                    }
                }
                Ok(())
            }
            _ => {
                let w = ty.bits();
                let n = (w + 7) / 8;
                match v {
                    V::C(c) => self.mem.store(addr, n as u64, *c)?,
                    V::S(e) => {
                        let e = self.ar.zext(*e, n * 8);
                        let mut tags = vec![];
                        for k in 0..n {
                            let b = self.ar.extract(e, k * 8, 8);
                            tags.push(match self.ar.konst(b) {
                                Some(c) => (0, c as u8),
                                None => (b + 2, 0),
                            });
                        }
                        self.mem.store_sym(addr, &tags)?
                    }
                    V::A(_) => return Err(Stop::Incon("store shape".into())),
                }
                Ok(())
            }
        }
    }
    fn pack(&mut self, v: &V, w: u32) -> V {
        match v {
            V::A(vs) => {
                if vs.iter().all(|x| matches!(x, V::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() {
                        if let V::C(c) = x {
                            r |= *c << (i as u32 * w)
                        }
                    }
                    return V::C(r);
                }
                let mut acc: Option<E> = None;
                for x in vs.iter() {
                    let e = self.ve(x, w);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.concat(e, a),
                    });
                }
                V::S(acc.unwrap())
            }
            v => v.clone(),
        }
    }
    fn unpack(&mut self, v: &V, n: u32, w: u32) -> R<V> {
        Ok(match v {
            V::C(c) => V::A(Rc::new((0..n).map(|i| V::C(mask(*c >> (i * w), w))).collect())),
            V::S(e) => {
                let mut o = vec![];
                for i in 0..n {
                    let x = self.ar.extract(*e, i * w, w);
                    o.push(self.sv(x));
                }
                V::A(Rc::new(o))
            }
            v => v.clone(),
        })
    }
    fn load(&mut self, a: &V, ty: &Ty) -> R<V> {
        match a {
            V::C(c) => self.load_c(*c as u64, ty),
            V::S(e) => {
                let e = *e;
                let max = self.cfg.ite_max;
                let vs = if ty.is_agg() { None } else { self.values(e, max)? };
                let n = ty.size();
                if let Some(vs) = vs {
                    let mut good = vec![];
                    for (v, _) in &vs {
                        let v = *v as u64;
                        if self.mem.check(v, n) {
                            good.push(v);
                        } else {
                            let q = self.ar.eqc(e, v as u128);
                            if self.decide(q)? {
                                return self.load_c(v, ty);
                            }
                        }
                    }
                    let w = ty.bits();
                    let mut acc: Option<E> = None;
                    for v in good.into_iter().rev() {
                        let x = self.load_c(v, ty)?;
                        let x = self.ve(&x, w);
                        acc = Some(match acc {
                            None => x,
                            Some(r) => {
                                let q = self.ar.eqc(e, v as u128);
                                self.ar.ite(q, x, r)
                            }
                        });
                    }
                    let r = acc.ok_or(Stop::Incon("symbolic load".into()))?;
                    return Ok(self.sv(r));
                }
                let c = self.concretize(e)?;
                self.load_c(c as u64, ty)
            }
            _ => Err(Stop::Incon("vector load".into())),
        }
    }
    fn bin1(&mut self, op: BinOp, a: &V, b: &V, w: u32) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            return match fold_bin(op, *x, *y, w) {
                Some(r) => Ok(V::C(r)),
                None => Err(Stop::Fail("mem".into(), "division by zero".into())),
            };
        }
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            let z = self.ar.eqc(y, 0);
            if self.decide(z)? {
                return Err(Stop::Fail("mem".into(), "division by zero".into()));
            }
        }
        let r = self.ar.bin(op, x, y);
        Ok(self.sv(r))
    }
    fn lanes(v: &V, n: usize) -> Vec<V> {
        match v {
            V::A(x) => x.to_vec(),
            v => vec![v.clone(); n],
        }
    }
    fn icmp1(&mut self, p: Pred, a: &V, b: &V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sext128(*x, w) < sext128(*y, w),
                Pred::Sle => sext128(*x, w) <= sext128(*y, w),
                Pred::Sgt => sext128(*x, w) > sext128(*y, w),
                Pred::Sge => sext128(*x, w) >= sext128(*y, w),
            };
            return V::C(r as u128);
        }
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        let r = self.ar.icmp(p, x, y);
        self.sv(r)
    }
    fn cast1(&mut self, k: CastK, a: &V, w1: u32, w2: u32) -> V {
        match a {
            V::C(c) => V::C(match k {
                CastK::Trunc => mask(*c, w2),
                CastK::Zext => *c,
                CastK::Sext => mask(sext128(*c, w1) as u128, w2),
                CastK::Bitcast => *c,
            }),
            V::S(e) => {
                let r = match k {
                    CastK::Trunc => self.ar.extract(*e, 0, w2),
                    CastK::Zext => self.ar.zext(*e, w2),
                    CastK::Sext => self.ar.sext(*e, w2),
                    CastK::Bitcast => *e,
                };
                self.sv(r)
            }
            v => v.clone(),
        }
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> R<V> {
        match c {
            V::C(c) => Ok(if *c != 0 { a.clone() } else { b.clone() }),
            V::S(e) => {
                let e = *e;
                if let Some(k) = self.known(e) {
                    return Ok(if k { a.clone() } else { b.clone() });
                }
                if ty.is_agg() {
                    return Ok(if self.decide(e)? { a.clone() } else { b.clone() });
                }
                let w = ty.bits();
                let (x, y) = (self.ve(a, w), self.ve(b, w));
                let r = self.ar.ite(e, x, y);
                Ok(self.sv(r))
            }
            _ => Err(Stop::Incon("vector select".into())),
        }
    }

    // ------------------------------------------------------------ frames
    fn push_frame(&mut self, f: u32, args: Vec<V>, dst: Option<u32>, inv: Option<(u32, u32)>, is_try: bool) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        if !fun.defined {
            return Err(Stop::Incon(format!("call of external function {}", fun.name)));
        }
        let mut regs = self.pool.pop().unwrap_or_default();
        if regs.len() < fun.nregs as usize {
            regs.resize(fun.nregs as usize, V::C(0));
        }
        for (p, a) in fun.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        self.fcov[f as usize] = true;
        self.bcov[f as usize][0] = true;
        let t = &mut self.threads[self.cur];
        if t.frames.len() > 3000 {
            return Err(Stop::Fail("hang".into(), "call depth over 3000".into()));
        }
        t.frames.push(Frame { f, block: 0, prev: 0, ip: 0, regs, allocas: vec![], dst, inv, is_try });
        Ok(())
    }
    fn pop_frame(&mut self) -> Frame {
        let mut fr = self.threads[self.cur].frames.pop().unwrap();
        for a in fr.allocas.drain(..) {
            self.mem.release_stack(a);
        }
        let regs = std::mem::take(&mut fr.regs);
        if self.pool.len() < 64 {
            self.pool.push(regs);
        }
        fr
    }
    fn jump(&mut self, b: u32) -> R<()> {
        let cur = self.cur;
        let fr = self.threads[cur].frames.last_mut().unwrap();
        let from = fr.block;
        let blk = &self.m.funcs[fr.f as usize].blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let p = &blk.phis[0];
                for (l, o) in &p.inc {
                    if *l == from {
                        let v = Self::opv(fr, o);
                        fr.regs[p.dst as usize] = v;
                        break;
                    }
                }
            } else {
                let mut vs: Vec<V> = Vec::with_capacity(blk.phis.len());
                for p in &blk.phis {
                    for (l, o) in &p.inc {
                        if *l == from {
                            vs.push(Self::opv(fr, o));
                            break;
                        }
                    }
                }
                if vs.len() != blk.phis.len() {
                    return Err(Stop::Incon("phi".into()));
                }
                for (p, v) in blk.phis.iter().zip(vs) {
                    fr.regs[p.dst as usize] = v;
                }
            }
        }
        fr.prev = from;
        fr.block = b;
        fr.ip = 0;
        self.bcov[fr.f as usize][b as usize] = true;
        Ok(())
    }
    fn ret(&mut self, v: Option<V>) -> R<()> {
        let fr = self.pop_frame();
        if self.threads[self.cur].frames.is_empty() {
            return self.thread_done();
        }
        if fr.is_try {
            if let Some(d) = fr.dst {
                self.set(d, V::C(0));
            }
        } else if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(d, v);
        }
        self.after_call(fr.inv)
    }
    fn after_call(&mut self, inv: Option<(u32, u32)>) -> R<()> {
        match inv {
            Some((n, _)) => self.jump(n),
            None => {
                self.threads[self.cur].frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }
    /// unwind: the current frame has just been left by a panic at a call described by (inv of the call).
    fn unwind_from_call(&mut self, inv: Option<(u32, u32)>, exn: V) -> R<()> {
        let mut inv = inv;
        loop {
            if let Some((_, u)) = inv {
                self.threads[self.cur].unwinding = Some(exn);
                return self.jump(u);
            }
            let fr = self.pop_frame();
            if self.threads[self.cur].frames.is_empty() {
                return Err(Stop::Fail("panic".into(), format!("uncaught panic in thread {}: {}", self.cur, self.notes.last().cloned().unwrap_or_default())));
            }
            if fr.is_try {
                self.count_panic(-1)?;
                if let Some(d) = fr.dst {
                    self.set(d, V::C(1));
                }
                return self.after_call(fr.inv);
            }
            inv = fr.inv;
        }
    }
    fn where_am_i(&self) -> Vec<String> {
        self.threads
            .get(self.cur)
            .map(|t| t.frames.iter().rev().take(12).map(|f| short(&self.m.funcs[f.f as usize].name)).collect())
            .unwrap_or_default()
    }

    // ------------------------------------------------------------ threads and locks
    fn thread_done(&mut self) -> R<()> {
        self.threads[self.cur].st = TSt::Done;
        if self.cur == 0 {
            return Err(Stop::Done);
        }
        let t = self.cur as u8;
        if self.locks.values().any(|l| l.writer == Some(t) || l.readers.contains(&t)) {
            // guards may be leaked into shared state on purpose; nothing to do
        }
        self.reschedule()
    }
    /// modes: 0 shared, 1 exclusive, 2 recursive shared, 4 upgradable, 5 exclusive by upgrading
    fn grantable(&self, t: usize, addr: u64, mode: u8) -> bool {
        let e = LockSt::default();
        let l = self.locks.get(&addr).unwrap_or(&e);
        // a queued writer goes first
        let queued = || {
            self.threads.iter().enumerate().any(|(i, x)| i != t && (x.st == TSt::Queue(addr, 1) || x.st == TSt::Queue(addr, 5)))
        };
        match mode {
            0 => l.writer.is_none() && !queued(),
            2 => l.writer.is_none(),
            4 => l.writer.is_none() && l.upg.is_none() && !queued(),
            5 => l.writer.is_none() && l.readers.is_empty(),
            _ => l.writer.is_none() && l.readers.is_empty() && l.upg.is_none(),
        }
    }
    fn acquire(&mut self, t: usize, addr: u64, mode: u8) {
        let l = self.locks.entry(addr).or_default();
        match mode {
            1 => l.writer = Some(t as u8),
            4 => l.upg = Some(t as u8),
            5 => {
                l.upg = Option::None;
                l.writer = Some(t as u8)
            }
            _ => l.readers.push(t as u8),
        }
    }
    /// pick the next thread to run (multi mode)
    fn reschedule(&mut self) -> R<()> {
        match self.multi {
            None => Err(Stop::Incon("scheduling outside a multi-threaded section".into())),
            Some(MultiMode::Step(t)) => loop {
                match self.threads[t].st {
                    TSt::Done => return self.back_to_main(1),
                    TSt::Pend(a, m) | TSt::Queue(a, m) => {
                        if self.grantable(t, a, m) {
                            self.acquire(t, a, m);
                            self.threads[t].st = TSt::Run;
                            self.cur = t;
                            return Ok(());
                        }
                        self.threads[t].st = TSt::Queue(a, m);
                        return self.back_to_main(0);
                    }
                    _ => {
                        self.threads[t].st = TSt::Run;
                        self.cur = t;
                        return Ok(());
                    }
                }
            },
            Some(MultiMode::All) => loop {
                let n = self.threads.len();
                let mut en: Vec<usize> = vec![];
                for t in 1..n {
                    match self.threads[t].st {
                        TSt::Run | TSt::Yield | TSt::Pend(..) => en.push(t),
                        TSt::Queue(a, m) => {
                            if self.grantable(t, a, m) {
                                en.push(t)
                            }
                        }
                        TSt::Done => {}
                    }
                }
                if en.is_empty() {
                    if (1..n).all(|t| self.threads[t].st == TSt::Done) {
                        return self.back_to_main(1);
                    }
                    return Err(Stop::Fail("deadlock".into(), "every unfinished thread waits for a lock".into()));
                }
                // continuing the current thread costs nothing; leaving an enabled one costs a preemption
                let cur_en = en.contains(&self.cur);
                let t = if en.len() == 1 || (cur_en && self.preempts >= self.cfg.preempt) {
                    if cur_en && en.len() > 1 {
                        self.cur
                    } else {
                        en[0]
                    }
                } else {
                    self.stats.sched_points += 1;
                    // put the current thread first
                    if cur_en {
                        en.retain(|x| *x != self.cur);
                        en.insert(0, self.cur);
                    }
                    let e = self.new_var(8, 0, en.len() as u64 - 1);
                    let k = self.concretize(e)? as usize;
                    if cur_en && k != 0 {
                        self.preempts += 1;
                    }
                    en[k]
                };
                match self.threads[t].st {
                    TSt::Pend(a, m) | TSt::Queue(a, m) => {
                        if self.grantable(t, a, m) {
                            self.acquire(t, a, m);
                            self.threads[t].st = TSt::Run;
                        } else {
                            self.threads[t].st = TSt::Queue(a, m);
                            self.cur = t;
                            continue;
                        }
                    }
                    _ => self.threads[t].st = TSt::Run,
                }
                self.cur = t;
                return Ok(());
            },
        }
    }
    fn back_to_main(&mut self, status: u64) -> R<()> {
        self.cur = 0;
        self.multi = None;
        // the pending xs_step / xs_run_all call returns status
        let fr = self.threads[0].frames.last().unwrap();
        let (f, b, ip) = (fr.f, fr.block, fr.ip);
        let inst = &self.m.funcs[f as usize].blocks[b as usize].insts[ip as usize];
        if let Inst::Call(c) = inst {
            if let Some(d) = c.dst {
                self.set(d, V::C(status as u128));
            }
            self.after_call(c.inv)
        } else {
            Err(Stop::Incon("return to main thread".into()))
        }
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, c: &CallI) -> R<()> {
        let (f, args): (u32, Vec<V>) = match &c.callee {
            Callee::Func(f) => (*f, c.args.iter().map(|(_, o)| self.val(o)).collect()),
            Callee::Asm => {
                if let Some(d) = c.dst {
                    self.set(d, V::C(0));
                }
                return self.after_call(c.inv);
            }
            Callee::Op(o) => {
                let a = self.cval(o)?;
                let id = a >> OBJ_SHIFT;
                if id < FUNC_BASE || a as u32 != 0 || (id - FUNC_BASE) as usize >= self.m.funcs.len() {
                    return Err(Stop::Fail("mem".into(), format!("call through an invalid function pointer {:#x}", a)));
                }
                ((id - FUNC_BASE) as u32, c.args.iter().map(|(_, o)| self.val(o)).collect())
            }
        };
        let i = self.intr[f as usize];
        if i == Intr::None {
            return self.push_frame(f, args, c.dst, c.inv, false);
        }
        self.intrinsic(i, f, c, args)
    }
    fn done(&mut self, c: &CallI, v: V) -> R<()> {
        if let Some(d) = c.dst {
            self.set(d, v);
        }
        self.after_call(c.inv)
    }
    fn lift1(&mut self, v: &V, w: u32, g: &dyn Fn(u128) -> u128) -> R<V> {
        match v {
            V::C(c) => Ok(V::C(mask(g(*c), w))),
            V::S(e) => {
                let c = self.concretize(*e)?;
                Ok(V::C(mask(g(c), w)))
            }
            V::A(vs) => {
                let mut o = vec![];
                for x in vs.iter() {
                    o.push(self.lift1(x, w, g)?);
                }
                Ok(V::A(Rc::new(o)))
            }
        }
    }
    fn minmax(&mut self, p: Pred, a: &V, b: &V, ty: &Ty) -> R<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let et = ty.elem(0).clone();
            let mut o = vec![];
            for (p1, q1) in x.clone().iter().zip(y.clone().iter()) {
                o.push(self.minmax(p, p1, q1, &et)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let c = self.icmp1(p, a, b, ty.bits());
        self.select(&c, a, b, ty)
    }
    fn overflow(&mut self, i: Intr, a: &V, b: &V, w: u32) -> R<V> {
        let signed = matches!(i, Intr::SAddO | Intr::SSubO | Intr::SMulO);
        let op = match i {
            Intr::UAddO | Intr::SAddO => BinOp::Add,
            Intr::USubO | Intr::SSubO => BinOp::Sub,
            _ => BinOp::Mul,
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            let r = fold_bin(op, *x, *y, w).unwrap();
            let o = if w > 64 {
                // i128: checked arithmetic
                if signed {
                    let (x, y) = (*x as i128, *y as i128);
                    match op {
                        BinOp::Add => x.checked_add(y).is_none(),
                        BinOp::Sub => x.checked_sub(y).is_none(),
                        _ => x.checked_mul(y).is_none(),
                    }
                } else {
                    match op {
                        BinOp::Add => x.checked_add(*y).is_none(),
                        BinOp::Sub => x.checked_sub(*y).is_none(),
                        _ => x.checked_mul(*y).is_none(),
                    }
                }
            } else if signed {
                let (x, y) = (sext128(*x, w), sext128(*y, w));
                let t = match op {
                    BinOp::Add => x + y,
                    BinOp::Sub => x - y,
                    _ => x * y,
                };
                t != sext128(r, w)
            } else {
                match op {
                    BinOp::Add => x + y != r,
                    BinOp::Sub => x < y,
                    _ => x * y != r,
                }
            };
            return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
        }
        let (x, y) = (self.ve(a, w), self.ve(b, w));
        let r = self.ar.bin(op, x, y);
        let w2 = if op == BinOp::Mul { 2 * w } else { w + 1 };
        if w2 > 128 {
            return Err(Stop::Incon("wide overflow arithmetic".into()));
        }
        let ov = if !signed && op == BinOp::Add {
            self.ar.cmp(CmpK::Ult, r, x)
        } else if !signed && op == BinOp::Sub {
            self.ar.cmp(CmpK::Ult, x, y)
        } else {
            let (wx, wy, wr) = if signed {
                (self.ar.sext(x, w2), self.ar.sext(y, w2), self.ar.sext(r, w2))
            } else {
                (self.ar.zext(x, w2), self.ar.zext(y, w2), self.ar.zext(r, w2))
            };
            let t = self.ar.bin(op, wx, wy);
            let q = self.ar.cmp(CmpK::Eq, t, wr);
            self.ar.not(q)
        };
        Ok(V::A(Rc::new(vec![self.sv(r), self.sv(ov)])))
    }
    fn panic_message(&mut self, args: &[V]) -> String {
        // core::fmt::Arguments: template pointer, args pointer; args word odd => plain string of len>>1
        let mut s = String::new();
        if args.len() >= 2 {
            if let (V::C(p), V::C(l)) = (&args[0], &args[1]) {
                if l & 1 == 1 && (*l >> 1) < 4096 {
                    for k in 0..(*l >> 1) as u64 {
                        match self.mem.load(*p as u64 + k, 1) {
                            Ok(Ok(b)) => s.push(b as u8 as char),
                            _ => break,
                        }
                    }
                } else {
                    // template bytes: keep printable ones
                    for k in 0..120 {
                        match self.mem.load(*p as u64 + k, 1) {
                            Ok(Ok(b)) if (32..127).contains(&b) => s.push(b as u8 as char),
                            Ok(Ok(0)) => break,
                            Ok(Ok(_)) => s.push('_'),
                            _ => break,
                        }
                    }
                }
            }
        }
        s
    }
    /// keep the counters std itself keeps of panics on their way
    fn count_panic(&mut self, by: i64) -> R<()> {
        let t = self.cur;
        self.threads[t].panics = self.threads[t].panics.saturating_add_signed(by);
        let n: u64 = self.threads.iter().map(|t| t.panics).sum();
        if let Some(a) = self.panic_count {
            self.mem.store(a, 8, n as u128)?;
        }
        Ok(())
    }
    fn float(&mut self, op: FOp, t1: &Ty, t2: &Ty, args: &[V]) -> R<V> {
        if let (Ty::Vec(n, e1), Ty::Vec(_, e2)) = (t1, t2) {
            let ls: Vec<Vec<V>> = args.iter().map(|a| Self::lanes(a, *n as usize)).collect();
            let mut o = vec![];
            for k in 0..*n as usize {
                let a: Vec<V> = ls.iter().map(|l| l[k].clone()).collect();
                o.push(self.float(op, e1, e2, &a)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let mut v = vec![];
        for a in args {
            v.push(match a {
                V::S(e) => self.concretize(*e)?,
                V::C(c) => *c,
                _ => return Err(Stop::Incon("floating point on an aggregate".into())),
            });
        }
        match float_op(op, t1.bits(), t2.bits(), &v) {
            Some(r) => Ok(V::C(r)),
            None => Err(Stop::Incon(format!("floating point {:?} on {} bits", op, t1.bits()))),
        }
    }
    fn intrinsic(&mut self, i: Intr, f: u32, c: &CallI, args: Vec<V>) -> R<()> {
        use Intr::*;
        let w = c.args.first().map(|a| a.0.bits()).unwrap_or(0);
        match i {
            None => unreachable!(),
            Nop => self.done(c, V::C(0)),
            Nothing0 => self.done(c, V::C(0)),
            ThreadPanicking => {
                let n = self.threads[self.cur].panics;
                self.done(c, V::C((n > 0) as u128))
            }
            PanicZero => {
                let n = self.threads[self.cur].panics;
                self.done(c, V::C((n == 0) as u128))
            }
            CatchCleanup => {
                // the payload: a value of no size behind a table without a destructor
                self.count_panic(-1)?;
                let t = self.mem.alloc(48, 8, Kind::Stack, true)?;
                self.mem.store(t + 16, 8, 1)?;
                self.done(c, V::A(Rc::new(vec![V::C(1), V::C(t as u128)])))
            }
            Sat(add, signed) => {
                let r = match (add, signed) {
                    (_, true) => {
                        let o = self.overflow(if add { SAddO } else { SSubO }, &args[0], &args[1], w)?;
                        let (r, ov) = match o {
                            V::A(v) => (v[0].clone(), v[1].clone()),
                            _ => unreachable!(),
                        };
                        // it overflows towards the sign of the first operand
                        let neg = self.icmp1(Pred::Slt, &args[0], &V::C(0), w);
                        let lo = V::C(1u128 << (w - 1));
                        let hi = V::C((1u128 << (w - 1)) - 1);
                        let sat = self.select(&neg, &lo, &hi, &c.args[0].0)?;
                        self.select(&ov, &sat, &r, &c.args[0].0)?
                    }
                    _ => {
                        let (x, k) = (self.conc(&args[0])? as u128, self.conc(&args[1])? as u32);
                        let y = mask(x << k, w);
                        V::C(if y >> k == x { y } else { mask(u128::MAX, w) })
                    }
                };
                self.done(c, r)
            }
            Reduce(k) => {
                let et = c.args[0].0.elem(0).clone();
                let n = c.args[0].0.count();
                let l = Self::lanes(&args[0], n);
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = match k {
                        0 => self.bin1(BinOp::Add, &r, x, et.bits())?,
                        1 => self.bin1(BinOp::Mul, &r, x, et.bits())?,
                        2 => self.bin1(BinOp::And, &r, x, et.bits())?,
                        3 => self.bin1(BinOp::Or, &r, x, et.bits())?,
                        4 => self.bin1(BinOp::Xor, &r, x, et.bits())?,
                        5 => self.minmax(Pred::Ugt, &r, x, &et)?,
                        6 => self.minmax(Pred::Ult, &r, x, &et)?,
                        7 => self.minmax(Pred::Sgt, &r, x, &et)?,
                        _ => self.minmax(Pred::Slt, &r, x, &et)?,
                    };
                }
                self.done(c, r)
            }
            Digits(w, dbg) => {
                let e = match (&args[0], &c.args[0].0) {
                    (V::S(e), Ty::Int(_)) => Some(*e),
                    (V::C(a), Ty::Ptr) => match self.load_c(*a as u64, &Ty::Int(w))? {
                        V::S(e) => Some(e),
                        _ => Option::None,
                    },
                    _ => Option::None,
                };
                let fmt = match &args[1] {
                    V::C(f) => *f as u64,
                    _ => 0,
                };
                let plain = !dbg || matches!(self.mem.load(fmt + 16, 4), Ok(Ok(x)) if x & (3 << 25) == 0);
                match (e, self.pad_integral) {
                    (Some(e), Some(pad)) if plain && self.ar.w(e) == w && !matches!(self.ar.konst(e), Some(_)) => {
                        // symbolic: as many digits as it has, or 20 (with leading zeros) above 999
                        let e = self.ar.zext(e, 64);
                        let mut n = 20;
                        for (k, lim) in [(1u32, 10u128), (2, 100), (3, 1000)] {
                            let l = self.ar.cst(lim, 64);
                            let q = self.ar.cmp(CmpK::Ult, e, l);
                            if self.decide(q)? {
                                n = k;
                                break;
                            }
                        }
                        let buf = self.mem.alloc(n as u64, 1, Kind::Stack, true)?;
                        let mut p = 1u128;
                        for k in 0..n {
                            let d = self.ar.cst(p, 64);
                            let x = self.ar.bin(BinOp::UDiv, e, d);
                            let ten = self.ar.cst(10, 64);
                            let x = self.ar.bin(BinOp::URem, x, ten);
                            // '0' is 0x30
                            let x = self.ar.extract(x, 0, 4);
                            let z = self.ar.cst(3, 4);
                            let x = self.ar.concat(z, x);
                            let v = self.sv(x);
                            self.store_c(buf + (n - 1 - k) as u64, &Ty::Int(8), &v)?;
                            p *= 10;
                        }
                        let a = vec![args[1].clone(), V::C(1), V::C(1), V::C(0), V::C(buf as u128), V::C(n as u128)];
                        self.push_frame(pad, a, c.dst, c.inv, false)
                    }
                    _ => self.push_frame(f, args, c.dst, c.inv, false),
                }
            }
            Float(op) => {
                let t1 = c.args[0].0.clone();
                let v = self.float(op, &t1, &c.ret, &args)?;
                self.done(c, v)
            }
            Panic => {
                self.count_panic(1)?;
                let msg = self.panic_message(&args);
                let site = self.where_am_i().into_iter().find(|s| s.contains("xecs") || s.contains("harness")).unwrap_or_default();
                self.notes.push(format!("panic: {} in {}", msg, site));
                let a = self.mem.alloc(8, 8, Kind::Stack, true)?;
                let exn = V::A(Rc::new(vec![V::C(a as u128), V::C(0)]));
                self.unwind_from_call(c.inv, exn)
            }
            Abort => {
                let msg = self.panic_message(&args);
                let n = short(&self.m.funcs[f as usize].name);
                Err(Stop::Fail("abort".into(), format!("{} {}", n, msg)))
            }
            Memcpy(ov) => {
                let (d, s, n) = (self.conc(&args[0])?, self.conc(&args[1])?, self.conc(&args[2])?);
                self.mem.copy(d, s, n, ov)?;
                self.done(c, V::C(d as u128))
            }
            Memset => {
                let (d, n) = (self.conc(&args[0])?, self.conc(&args[2])?);
                match &args[1] {
                    V::S(e) => {
                        let e = self.ar.extract(*e, 0, 8);
                        self.mem.fill(d, n, e + 2, 0)?
                    }
                    V::C(b) => self.mem.fill(d, n, 0, *b as u8)?,
                    _ => {}
                }
                self.done(c, V::C(d as u128))
            }
            Bcmp => {
                let (a, b, n) = (self.conc(&args[0])?, self.conc(&args[1])?, self.conc(&args[2])?);
                let is_mem = self.m.funcs[f as usize].name == "memcmp";
                let mut conds: Vec<(E, E)> = vec![];
                for k in 0..n {
                    let x = self.load_c(a + k, &Ty::Int(8))?;
                    let y = self.load_c(b + k, &Ty::Int(8))?;
                    match (&x, &y) {
                        (V::C(p), V::C(q)) => {
                            if p != q && conds.is_empty() {
                                let r = if p < q { 0xffff_ffffu128 } else { 1 };
                                return self.done(c, V::C(r));
                            }
                        }
                        _ => {}
                    }
                    let (x, y) = (self.ve(&x, 8), self.ve(&y, 8));
                    if x != y {
                        conds.push((x, y));
                    }
                }
                let mut r = self.ar.cst(0, 32);
                for (x, y) in conds.into_iter().rev() {
                    let q = self.ar.cmp(CmpK::Eq, x, y);
                    let ne = if is_mem {
                        let l = self.ar.cmp(CmpK::Ult, x, y);
                        let m1 = self.ar.cst(0xffff_ffff, 32);
                        let p1 = self.ar.cst(1, 32);
                        self.ar.ite(l, m1, p1)
                    } else {
                        self.ar.cst(1, 32)
                    };
                    r = self.ar.ite(q, r, ne);
                }
                let v = self.sv(r);
                self.done(c, v)
            }
            Strlen => {
                let a = self.conc(&args[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_c(a + n, &Ty::Int(8))?;
                    if self.conc(&v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                self.done(c, V::C(n as u128))
            }
            Ctlz | Cttz | Ctpop | Bswap | Bitrev => {
                let ew = match &c.args[0].0 {
                    Ty::Vec(_, t) => t.bits(),
                    t => t.bits(),
                };
                let g = move |x: u128| -> u128 {
                    match i {
                        Ctlz => {
                            if x == 0 {
                                ew as u128
                            } else {
                                (x.leading_zeros() - (128 - ew)) as u128
                            }
                        }
                        Cttz => {
                            if x == 0 {
                                ew as u128
                            } else {
                                x.trailing_zeros() as u128
                            }
                        }
                        Ctpop => x.count_ones() as u128,
                        Bswap => x.swap_bytes() >> (128 - ew),
                        _ => x.reverse_bits() >> (128 - ew),
                    }
                };
                let v = self.lift1(&args[0], ew, &g)?;
                self.done(c, v)
            }
            UMulO | SMulO | UAddO | SAddO | USubO | SSubO => {
                let v = self.overflow(i, &args[0], &args[1], w)?;
                self.done(c, v)
            }
            UMax | UMin | SMax | SMin => {
                let p = match i {
                    UMax => Pred::Ugt,
                    UMin => Pred::Ult,
                    SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let ty = c.args[0].0.clone();
                let v = self.minmax(p, &args[0], &args[1], &ty)?;
                self.done(c, v)
            }
            UAddSat | USubSat => {
                let o = self.overflow(if i == UAddSat { UAddO } else { USubO }, &args[0], &args[1], w)?;
                let (r, ov) = match o {
                    V::A(v) => (v[0].clone(), v[1].clone()),
                    _ => unreachable!(),
                };
                let sat = V::C(if i == UAddSat { mask(u128::MAX, w) } else { 0 });
                let v = self.select(&ov, &sat, &r, &c.args[0].0)?;
                self.done(c, v)
            }
            Fshl | Fshr => {
                let s = self.conc(&args[2])? as u32 % w;
                let s = if i == Fshl { s } else { w - s };
                let (a, b) = (self.ve(&args[0], w), self.ve(&args[1], w));
                let r = if s == 0 {
                    a
                } else if s == w {
                    b
                } else {
                    let h = self.ar.extract(a, 0, w - s);
                    let l = self.ar.extract(b, w - s, s);
                    self.ar.concat(h, l)
                };
                let v = self.sv(r);
                self.done(c, v)
            }
            Abs => {
                let g = |x: u128| (sext128(x, w)).unsigned_abs();
                let v = self.lift1(&args[0], w, &g)?;
                self.done(c, v)
            }
            Ucmp | Scmp => {
                let rw = c.ret.bits();
                let lt = self.icmp1(if i == Ucmp { Pred::Ult } else { Pred::Slt }, &args[0], &args[1], w);
                let eq = self.icmp1(Pred::Eq, &args[0], &args[1], w);
                let x = self.select(&eq, &V::C(0), &V::C(1), &c.ret)?;
                let v = self.select(&lt, &V::C(mask(u128::MAX, rw)), &x, &c.ret)?;
                self.done(c, v)
            }
            IsConst => self.done(c, V::C(0)),
            Assume => self.done(c, V::C(0)),
            TlsAddr => {
                let g = self.conc(&args[0])?;
                let key = (self.cur, g);
                if let Some(a) = self.tls.get(&key) {
                    let a = *a;
                    return self.done(c, V::C(a as u128));
                }
                let n = self.mem.size_of(g).unwrap_or(0) as u64;
                let a = self.mem.alloc(n, 16, Kind::Stack, true)?;
                self.mem.copy(a, g, n, true)?;
                self.tls.insert(key, a);
                self.done(c, V::C(a as u128))
            }
            Alloc | AllocZ | Malloc | Calloc => {
                let n = match i {
                    Calloc => self.conc(&args[0])?.wrapping_mul(self.conc(&args[1])?),
                    _ => self.conc(&args[0])?,
                };
                let al = if matches!(i, Alloc | AllocZ) { self.conc(&args[1])? } else { 16 };
                let a = self.mem.alloc(n, al, Kind::Heap, matches!(i, AllocZ | Calloc))?;
                self.done(c, V::C(a as u128))
            }
            PosixMemalign => {
                let (p, n) = (self.conc(&args[0])?, self.conc(&args[2])?);
                let a = self.mem.alloc(n, 16, Kind::Heap, false)?;
                self.mem.store(p, 8, a as u128)?;
                self.done(c, V::C(0))
            }
            Dealloc => {
                let (a, n) = (self.conc(&args[0])?, self.conc(&args[1])?);
                self.mem.free(a, Some(n))?;
                self.done(c, V::C(0))
            }
            Free => {
                let a = self.conc(&args[0])?;
                if a != 0 {
                    self.mem.free(a, Option::None)?;
                }
                self.done(c, V::C(0))
            }
            Realloc | CRealloc => {
                let a = self.conc(&args[0])?;
                let n = self.conc(&args[if i == Realloc { 3 } else { 1 }])?;
                let old = match self.mem.size_of(a) {
                    Some(o) => o as u64,
                    Option::None => return Err(Stop::Fail("mem".into(), "realloc of an invalid pointer".into())),
                };
                if i == Realloc {
                    let o2 = self.conc(&args[1])?;
                    if o2 != old {
                        return Err(Stop::Fail("mem".into(), "realloc with a wrong size".into()));
                    }
                }
                let b = self.mem.alloc(n, 16, Kind::Heap, false)?;
                self.mem.copy(b, a, n.min(old), true)?;
                self.mem.free(a, Option::None)?;
                self.done(c, V::C(b as u128))
            }
            HashKeys => {
                // environment stub: fixed keys (std's hasher is outside the properties)
                let k = self.args.first().copied().unwrap_or(0);
                let v = V::A(Rc::new(vec![
                    V::C((0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 1)) as u128),
                    V::C((0xc2b2_ae3d_27d4_eb4fu64.wrapping_mul(k + 3)) as u128),
                ]));
                self.done(c, v)
            }
            LockSlow(_) => Err(Stop::Fail("deadlock".into(), "the only thread waits for a lock it holds".into())),
            XsSym => {
                let (b, lo, hi) = (self.conc(&args[0])? as u32, self.conc(&args[1])?, self.conc(&args[2])?);
                if self.vars.len() >= 4000 {
                    return Err(Stop::Incon("too many symbolic inputs".into()));
                }
                let e = if lo == hi {
                    self.new_var(b, lo, hi);
                    self.ar.cst(lo as u128, b)
                } else {
                    self.new_var(b, lo, hi)
                };
                let e = self.ar.zext(e, 64);
                let v = self.sv(e);
                self.done(c, v)
            }
            XsFail => {
                let k = self.conc(&args[0])?;
                Err(Stop::Fail(format!("check:{}", k), "".into()))
            }
            XsCheck => {
                let code = self.conc(&args[1])?;
                self.stats.checks += 1;
                match &args[0] {
                    V::C(x) => {
                        if *x == 0 {
                            return Err(Stop::Fail(format!("check:{}", code), "".into()));
                        }
                        self.stats.checks_simplified += 1;
                    }
                    V::S(e) => {
                        let e = *e;
                        let z = self.ar.eqc(e, 0);
                        let ok = self.ar.not(z);
                        match self.known(ok) {
                            Some(true) => self.stats.checks_simplified += 1,
                            Some(false) => return Err(Stop::Fail(format!("check:{}", code), "".into())),
                            Option::None => {
                                self.uninit_dep(ok)?;
                                self.stats.checks_solved += 1;
                                let bad = self.ar.not(ok);
                                if let Some(m) = self.sat(&[bad])? {
                                    self.model = self.merged(&m);
                                    return Err(Stop::Fail(format!("check:{}", code), "".into()));
                                }
                                self.learn(ok, true);
                            }
                        }
                    }
                    _ => {}
                }
                self.done(c, V::C(0))
            }
            XsAssume => {
                match &args[0] {
                    V::C(0) => return Err(Stop::Assume),
                    V::C(_) => {}
                    V::S(e) => {
                        let z = self.ar.eqc(*e, 0);
                        let ok = self.ar.not(z);
                        let k = self.model.clone();
                        if self.known(ok) == Some(false) {
                            return Err(Stop::Assume);
                        }
                        match self.sat(&[ok])? {
                            Option::None => return Err(Stop::Assume),
                            Some(m) => {
                                if self.ar.eval(ok, &k, true) == 0 {
                                    self.model = self.merged(&m);
                                }
                                self.assume_e(ok, true);
                            }
                        }
                    }
                    _ => {}
                }
                self.done(c, V::C(0))
            }
            XsLog => {
                let t = self.conc(&args[0])? as u32;
                self.log.push((t, args[1].clone()));
                self.done(c, V::C(0))
            }
            XsNote => {
                let t = self.conc(&args[0])?;
                let v = args[1].clone();
                let s = match v {
                    V::C(c) => format!("{}", c),
                    _ => "sym".into(),
                };
                self.notes.push(format!("note {} {}", t, s));
                self.done(c, V::C(0))
            }
            XsCover => {
                let k = self.conc(&args[0])? as u32;
                *self.covers.entry(k).or_insert(0) += 1;
                self.done(c, V::C(0))
            }
            XsFork => {
                let v = self.conc(&args[0])?;
                self.done(c, V::C(v as u128))
            }
            XsGap => {
                let n = self.cfg.gap;
                self.done(c, V::C(n as u128))
            }
            XsHeapLive => {
                // what statics and thread-locals hold is not leaked
                let roots: Vec<u64> = self.tls.values().copied().collect();
                let n = self.mem.heap_live - self.mem.held(&roots);
                self.done(c, V::C(n as u128))
            }
            XsHeapBytes => {
                let n = self.mem.heap_bytes;
                self.done(c, V::C(n as u128))
            }
            XsTry => {
                let fp = self.conc(&args[0])?;
                let id = fp >> OBJ_SHIFT;
                if id < FUNC_BASE {
                    return Err(Stop::Incon("xs_try".into()));
                }
                self.push_frame((id - FUNC_BASE) as u32, vec![args[1].clone()], c.dst, c.inv, true)
            }
            XsSpawn => {
                let fp = self.conc(&args[0])?;
                let id = (fp >> OBJ_SHIFT).wrapping_sub(FUNC_BASE);
                let t = self.threads.len();
                self.threads.push(Thread { frames: vec![], st: TSt::Yield, unwinding: Option::None, panics: 0 });
                let save = self.cur;
                self.cur = t;
                self.push_frame(id as u32, vec![args[1].clone()], Option::None, Option::None, false)?;
                self.cur = save;
                self.done(c, V::C(t as u128))
            }
            XsStep => {
                let t = self.conc(&args[0])? as usize;
                self.multi = Some(MultiMode::Step(t));
                self.reschedule()
            }
            XsRunAll => {
                self.multi = Some(MultiMode::All);
                self.preempts = 0;
                self.reschedule()
            }
            XsLock => {
                let (a, m) = (self.conc(&args[0])?, self.conc(&args[1])? as u8);
                // the call returns once the lock is granted
                let t = self.cur;
                if self.multi.is_none() {
                    if self.grantable(t, a, m) {
                        self.acquire(t, a, m);
                        return self.done(c, V::C(0));
                    }
                    return Err(Stop::Fail("deadlock".into(), "the main thread waits for a lock that is held".into()));
                }
                self.threads[t].st = TSt::Pend(a, m);
                self.done(c, V::C(0))?;
                self.reschedule()
            }
            XsTryLock => {
                let (a, m) = (self.conc(&args[0])?, self.conc(&args[1])? as u8);
                let t = self.cur;
                let ok = self.grantable(t, a, m);
                if ok {
                    self.acquire(t, a, m);
                }
                self.done(c, V::C(ok as u128))
            }
            XsUnlock => {
                // mode 0: shared, 1: exclusive, 3: exclusive -> shared, 4: upgradable,
                // 6: upgradable -> shared, 7: exclusive -> upgradable
                let (a, m) = (self.conc(&args[0])?, self.conc(&args[1])? as u8);
                let t = self.cur as u8;
                let l = self.locks.entry(a).or_default();
                let ok = match m {
                    0 => match l.readers.iter().position(|x| *x == t).or(if l.readers.is_empty() { Option::None } else { Some(0) }) {
                        Some(p) => {
                            l.readers.remove(p);
                            true
                        }
                        Option::None => false,
                    },
                    4 | 6 => l.upg.take().is_some(),
                    _ => l.writer.take().is_some(),
                };
                if m == 3 || m == 6 {
                    l.readers.push(t)
                }
                if m == 7 {
                    l.upg = Some(t)
                }
                if !ok {
                    return Err(Stop::Fail("lock".into(), "a lock is released that is not held".into()));
                }
                if l.readers.is_empty() && l.writer.is_none() && l.upg.is_none() {
                    self.locks.remove(&a);
                }
                self.done(c, V::C(0))
            }
            XsYield => {
                if self.multi.is_none() {
                    return self.done(c, V::C(0));
                }
                self.threads[self.cur].st = TSt::Yield;
                self.done(c, V::C(0))?;
                self.reschedule()
            }
        }
    }

    // ------------------------------------------------------------ instructions
    fn step(&mut self) -> R<()> {
        let m: &'static Module = self.m;
        loop {
            let (f, b, ip) = {
                let fr = self.threads[self.cur].frames.last().unwrap();
                (fr.f, fr.block, fr.ip)
            };
            let inst = &m.funcs[f as usize].blocks[b as usize].insts[ip as usize];
            self.insts += 1;
            if self.insts > self.cfg.step_limit {
                return Err(Stop::Fail("hang".into(), format!("more than {} instructions", self.cfg.step_limit)));
            }
            if let Flow::Next = self.inst(inst)? {
                self.threads[self.cur].frames.last_mut().unwrap().ip += 1;
            }
        }
    }
    #[inline(always)]
    fn inst(&mut self, inst: &'static Inst) -> R<Flow> {
        match inst {
            Inst::Bin(op, d, ty, a, b) => {
                let (x, y) = (self.val(a), self.val(b));
                let r = if let Ty::Vec(n, t) = ty {
                    let (x, y) = (Self::lanes(&x, *n as usize), Self::lanes(&y, *n as usize));
                    let mut o = Vec::with_capacity(x.len());
                    for (p, q) in x.iter().zip(y.iter()) {
                        o.push(self.bin1(*op, p, q, t.bits())?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.bin1(*op, &x, &y, ty.bits())?
                };
                self.set(*d, r);
            }
            Inst::Icmp(p, d, ty, a, b) => {
                let (x, y) = (self.val(a), self.val(b));
                let r = if let Ty::Vec(n, t) = ty {
                    let (x, y) = (Self::lanes(&x, *n as usize), Self::lanes(&y, *n as usize));
                    let mut o = Vec::with_capacity(x.len());
                    for (u, v) in x.iter().zip(y.iter()) {
                        o.push(self.icmp1(*p, u, v, t.bits()));
                    }
                    V::A(Rc::new(o))
                } else {
                    self.icmp1(*p, &x, &y, ty.bits())
                };
                self.set(*d, r);
            }
            Inst::Cast(k, d, t1, t2, a) => {
                let x = self.val(a);
                let r = match (t1, t2) {
                    (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) => {
                        if n1 == n2 {
                            let xs = Self::lanes(&x, *n1 as usize);
                            let mut o = vec![];
                            for p in &xs {
                                o.push(self.cast1(*k, p, e1.bits(), e2.bits()));
                            }
                            V::A(Rc::new(o))
                        } else {
                            let p = self.pack(&x, e1.bits());
                            self.unpack(&p, *n2 as u32, e2.bits())?
                        }
                    }
                    (Ty::Vec(_, e1), _) => self.pack(&x, e1.bits()),
                    (_, Ty::Vec(n2, e2)) => self.unpack(&x, *n2 as u32, e2.bits())?,
                    _ => self.cast1(*k, &x, t1.bits(), t2.bits()),
                };
                self.set(*d, r);
            }
            Inst::Float(op, d, t1, t2, a) => {
                let xs: Vec<V> = a.iter().map(|x| self.val(x)).collect();
                let r = self.float(*op, t1, t2, &xs)?;
                self.set(*d, r);
            }
            Inst::Load(d, ty, a) => {
                let x = self.val(a);
                let r = self.load(&x, ty)?;
                self.set(*d, r);
            }
            Inst::Store(ty, v, a) => {
                let addr = self.cval(a)?;
                let x = self.val(v);
                self.store_c(addr, ty, &x)?;
            }
            Inst::Gep(d, base, off, idx) => {
                let b = self.val(base);
                let r = match b {
                    V::C(c) => {
                        let mut acc = (c as u64).wrapping_add(*off as u64);
                        let mut sym: Option<E> = None;
                        for (o, w, s) in idx {
                            match self.val(o) {
                                V::C(i) => acc = acc.wrapping_add((sext128(i, *w) as i64 as u64).wrapping_mul(*s as u64)),
                                V::S(e) => {
                                    let x = self.ar.sext(e, 64);
                                    let k = self.ar.cst(*s as u64 as u128, 64);
                                    let p = self.ar.bin(BinOp::Mul, x, k);
                                    sym = Some(match sym {
                                        None => p,
                                        Some(q) => self.ar.bin(BinOp::Add, q, p),
                                    });
                                }
                                _ => return Err(Stop::Incon("vector gep".into())),
                            }
                        }
                        match sym {
                            None => V::C(acc as u128),
                            Some(e) => {
                                let k = self.ar.cst(acc as u128, 64);
                                let r = self.ar.bin(BinOp::Add, e, k);
                                self.sv(r)
                            }
                        }
                    }
                    V::S(e) => {
                        let k = self.ar.cst(*off as u64 as u128, 64);
                        let mut acc = self.ar.bin(BinOp::Add, e, k);
                        for (o, w, s) in idx {
                            let v = self.val(o);
                            let x = self.ve(&v, *w);
                            let x = self.ar.sext(x, 64);
                            let k = self.ar.cst(*s as u64 as u128, 64);
                            let p = self.ar.bin(BinOp::Mul, x, k);
                            acc = self.ar.bin(BinOp::Add, acc, p);
                        }
                        self.sv(acc)
                    }
                    _ => return Err(Stop::Incon("vector gep".into())),
                };
                self.set(*d, r);
            }
            Inst::Alloca(d, n, dynn) => {
                let n = match dynn {
                    None => *n,
                    Some((o, s)) => self.cval(o)? * s,
                };
                let a = self.mem.alloc(n, 16, Kind::Stack, false)?;
                self.threads[self.cur].frames.last_mut().unwrap().allocas.push(a);
                self.set(*d, V::C(a as u128));
            }
            Inst::Call(c) => {
                self.call(c)?;
                return Ok(Flow::Jump);
            }
            Inst::Select(d, ty, c, a, b, vc) => {
                let (cv, x, y) = (self.val(c), self.val(a), self.val(b));
                let r = if *vc {
                    let n = ty.count();
                    let (cs, xs, ys) = (Self::lanes(&cv, n), Self::lanes(&x, n), Self::lanes(&y, n));
                    let et = ty.elem(0);
                    let mut o = vec![];
                    for k in 0..n {
                        o.push(self.select(&cs[k], &xs[k], &ys[k], et)?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.select(&cv, &x, &y, ty)?
                };
                self.set(*d, r);
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut v = self.val(a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Incon("extractvalue".into())),
                    };
                }
                self.set(*d, v);
            }
            Inst::InsertValue(d, ty, a, v, ix) => {
                let x = self.val(a);
                let y = self.val(v);
                let r = insert(&x, &y, ix, ty);
                self.set(*d, r);
            }
            Inst::ExtractElem(d, a, i) => {
                let v = self.val(a);
                let k = self.cval(i)? as usize;
                if let V::A(x) = &v {
                    let r = x[k].clone();
                    self.set(*d, r);
                }
            }
            Inst::InsertElem(d, ty, a, v, i) => {
                let x = self.val(a);
                let y = self.val(v);
                let k = self.cval(i)? as u32;
                let r = insert(&x, &y, &[k], ty);
                self.set(*d, r);
            }
            Inst::Shuffle(d, a, b, mk, n) => {
                let (x, y) = (self.val(a), self.val(b));
                let n = *n as usize;
                let (xs, ys) = (Self::lanes(&x, n), Self::lanes(&y, n));
                let o = mk.iter().map(|k| if (*k as usize) < n { xs[*k as usize].clone() } else { ys.get(*k as usize - n).cloned().unwrap_or(V::C(0)) }).collect();
                self.set(*d, V::A(Rc::new(o)));
            }
            Inst::Br(b) => {
                self.jump(*b)?;
                return Ok(Flow::Jump);
            }
            Inst::CondBr(c, b1, b2) => {
                let t = match self.val(c) {
                    V::C(c) => c != 0,
                    V::S(e) => self.decide(e)?,
                    _ => return Err(Stop::Incon("branch".into())),
                };
                self.jump(if t { *b1 } else { *b2 })?;
                return Ok(Flow::Jump);
            }
            Inst::Switch(c, _, def, cases) => {
                let t = match self.val(c) {
                    V::C(c) => cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def),
                    V::S(e) => {
                        let mut t = *def;
                        for (k, l) in cases {
                            let q = self.ar.eqc(e, *k);
                            if self.decide(q)? {
                                t = *l;
                                break;
                            }
                        }
                        t
                    }
                    _ => return Err(Stop::Incon("switch".into())),
                };
                self.jump(t)?;
                return Ok(Flow::Jump);
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.val(o));
                self.ret(r)?;
                return Ok(Flow::Jump);
            }
            Inst::Unreachable => return Err(Stop::Fail("unreachable".into(), "an instruction marked unreachable was reached (undefined behaviour)".into())),
            Inst::Resume(v) => {
                let x = self.val(v);
                let fr = self.pop_frame();
                if self.threads[self.cur].frames.is_empty() {
                    return Err(Stop::Fail("panic".into(), format!("uncaught panic in thread {}: {}", self.cur, self.notes.last().cloned().unwrap_or_default())));
                }
                if fr.is_try {
                    if let Some(d) = fr.dst {
                        self.set(d, V::C(1));
                    }
                    self.after_call(fr.inv)?;
                    return Ok(Flow::Jump);
                }
                self.unwind_from_call(fr.inv, x)?;
                return Ok(Flow::Jump);
            }
            Inst::LandingPad(d) => {
                let v = self.threads[self.cur].unwinding.take().unwrap_or(V::A(Rc::new(vec![V::C(0), V::C(0)])));
                self.set(*d, v);
            }
            Inst::CmpXchg { dst, ptr, ty, cmp, new, .. } => {
                let a = self.cval(ptr)?;
                let old = self.load_c(a, ty)?;
                let c = self.val(cmp);
                let n = self.val(new);
                let eq = self.icmp1(Pred::Eq, &old, &c, ty.bits());
                let ok = match eq {
                    V::C(c) => c != 0,
                    V::S(e) => self.decide(e)?,
                    _ => false,
                };
                if ok {
                    self.store_c(a, ty, &n)?;
                }
                self.set(*dst, V::A(Rc::new(vec![old, V::C(ok as u128)])));
            }
            Inst::Rmw { dst, op, ptr, ty, val } => {
                let a = self.cval(ptr)?;
                let old = self.load_c(a, ty)?;
                let v = self.val(val);
                let w = ty.bits();
                let n = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => self.bin1(BinOp::Add, &old, &v, w)?,
                    RmwOp::Sub => self.bin1(BinOp::Sub, &old, &v, w)?,
                    RmwOp::And => self.bin1(BinOp::And, &old, &v, w)?,
                    RmwOp::Or => self.bin1(BinOp::Or, &old, &v, w)?,
                    RmwOp::Xor => self.bin1(BinOp::Xor, &old, &v, w)?,
                    RmwOp::UMax => self.minmax(Pred::Ugt, &old, &v, ty)?,
                    RmwOp::UMin => self.minmax(Pred::Ult, &old, &v, ty)?,
                    RmwOp::Max => self.minmax(Pred::Sgt, &old, &v, ty)?,
                    RmwOp::Min => self.minmax(Pred::Slt, &old, &v, ty)?,
                    RmwOp::Nand => return Err(Stop::Incon("nand".into())),
                };
                self.store_c(a, ty, &n)?;
                self.set(*dst, old);
            }
            Inst::Fence => {}
            Inst::Freeze(d, a) => {
                let v = self.val(a);
                self.set(*d, v);
            }
            Inst::Unsupported(s) => return Err(Stop::Incon(format!("unsupported instruction: {}", s))),
        }
        Ok(Flow::Next)
    }

    // ------------------------------------------------------------ paths
    pub fn run_path(&mut self, entry: u32, w: Work) {
        self.pc.clear();
        self.bind.clear();
        self.dec = w.dec;
        self.nprefix = self.dec.len();
        self.dpos = 0;
        self.model = w.model;
        self.vars.clear();
        self.nuninit = 0;
        self.log.clear();
        self.insts = 0;
        self.locks.clear();
        self.tls.clear();
        self.notes.clear();
        self.errno = 0;
        self.multi = None;
        self.mem.reset();
        while let Some(mut t) = self.threads.pop() {
            while let Some(mut f) = t.frames.pop() {
                if self.pool.len() < 64 {
                    self.pool.push(std::mem::take(&mut f.regs));
                }
            }
        }
        if self.ar.nodes.len() > 3_000_000 || self.cache.map.len() > 400_000 {
            self.ar = Arena::new();
            let z = std::mem::replace(&mut self.z3, Z3::new(self.cfg.timeout_ms));
            self.z3.queries = z.queries;
            self.z3.time = z.time;
            self.z3.max = z.max;
            self.cache.map.clear();
        }
        self.cur = 0;
        self.threads.push(Thread { frames: vec![], st: TSt::Run, unwinding: None, panics: 0 });
        let arity = self.m.funcs[entry as usize].params.len();
        let args: Vec<V> = (0..arity).map(|i| V::C(self.args.get(i + 1).copied().unwrap_or(0) as u128)).collect();
        let r = match self.push_frame(entry, args, None, None, false) {
            Ok(()) => self.step(),
            Err(e) => Err(e),
        };
        self.stats.paths += 1;
        self.stats.insts += self.insts;
        self.stats.max_insts = self.stats.max_insts.max(self.insts);
        self.stats.max_depth = self.stats.max_depth.max(self.dec.len() as u64);
        self.stats.queries = self.z3.queries;
        self.stats.solver_ms = self.z3.time.as_secs_f64() * 1e3;
        self.stats.solver_max_ms = self.z3.max.as_secs_f64() * 1e3;
        self.seq += 1;
        match r.unwrap_err() {
            Stop::Done => {
                if self.samples.len() < self.cfg.max_samples && self.seq % self.cfg.sample_every == 1 % self.cfg.sample_every {
                    let m = self.model.clone();
                    let lg: Vec<(u32, V)> = self.log.clone();
                    let mut first = true;
                    let log = lg
                        .iter()
                        .map(|(t, v)| {
                            (
                                *t,
                                match v {
                                    V::C(c) => *c as u64,
                                    V::S(e) => {
                                        let r = self.ar.eval(*e, &m, first) as u64;
                                        first = false;
                                        r
                                    }
                                    _ => 0,
                                },
                            )
                        })
                        .collect();
                    let tape = self.tape();
                    self.samples.push(Sample { tape, log, insts: self.insts });
                }
            }
            Stop::Assume => self.stats.assume_paths += 1,
            Stop::Fail(kind, detail) => {
                let tape = self.tape();
                let mut trace = self.where_am_i();
                trace.extend(self.notes.iter().rev().take(6).cloned());
                self.found.push(Found { kind, detail, tape, trace });
            }
            Stop::Incon(s) => {
                let t = self.tape();
                let mut s = s;
                s.push_str(" @ ");
                s.push_str(&self.where_am_i().join(" < "));
                self.incon.push((s, t));
            }
        }
    }
    fn tape(&self) -> Vec<u64> {
        (0..self.vars.len()).map(|k| self.model.get(k).copied().unwrap_or(self.vars[k].1)).collect()
    }
    pub fn unused(&self) -> HashSet<u32> {
        HashSet::new()
    }
}

fn insert(a: &V, v: &V, ix: &[u32], ty: &Ty) -> V {
    if ix.is_empty() {
        return v.clone();
    }
    let mut o: Vec<V> = match a {
        V::A(x) => x.to_vec(),
        _ => (0..ty.count()).map(|_| V::C(0)).collect(),
    };
    let k = ix[0] as usize;
    o[k] = insert(&o[k].clone(), v, &ix[1..], ty.elem(k));
    V::A(Rc::new(o))
}

/// readable form of a v0-mangled name: keep the identifiers
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[j].is_ascii_digit() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
            i = j;
            continue;
        }
        if b[i] == b's' || b[i] == b'B' || b[i] == b'C' {
            // disambiguators such as Cs8ZKwes1zzDd_ : skip to '_'
            if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
                let mut j = i;
                while j < b.len() && b[j] != b'_' {
                    j += 1
                }
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
