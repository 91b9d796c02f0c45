//! Byte-addressed object memory.  An address is (object id << 32) + offset.
use crate::expr::*;
use crate::ir::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

pub struct Obj {
    pub bytes: Vec<u8>,
    /// per byte: 0 concrete, 1 uninitialised, e+2 symbolic; empty = all concrete
    pub sym: Vec<u32>,
    pub size: u32,
    pub align: u32,
    pub kind: Kind,
    pub live: bool,
}

pub const DYN_BASE: u64 = 0x10_0000;

pub struct Mem {
    glob: Vec<Option<Box<Obj>>>,
    touched: Vec<usize>,
    dynv: Vec<Obj>,
    pool: Vec<Vec<u8>>,
    pub heap_live: u64,
    pub heap_bytes: u64,
    pub allocs: u64,
    m: &'static Module,
}

#[derive(Debug, Clone)]
pub struct MemErr(pub String);
type R<T> = Result<T, MemErr>;

impl Mem {
    pub fn new(m: &'static Module) -> Mem {
        Mem {
            glob: m.globals.iter().map(|_| None).collect(),
            touched: vec![],
            dynv: vec![],
            pool: vec![],
            heap_live: 0,
            heap_bytes: 0,
            allocs: 0,
            m,
        }
    }
    pub fn reset(&mut self) {
        for i in std::mem::take(&mut self.touched) {
            self.glob[i] = None;
        }
        self.dynv.clear();
        self.heap_live = 0;
        self.heap_bytes = 0;
        self.allocs = 0;
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, zero: bool) -> R<u64> {
        if size > 1 << 28 {
            return Err(MemErr(format!("allocation of {} bytes", size)));
        }
        let id = DYN_BASE + self.dynv.len() as u64;
        let mut bytes = self.pool.pop().unwrap_or_default();
        bytes.clear();
        bytes.resize(size as usize, 0);
        let sym = if zero || size == 0 { vec![] } else { vec![1; size as usize] };
        self.dynv.push(Obj { bytes, sym, size: size as u32, align: align as u32, kind, live: true });
        if kind == Kind::Heap {
            self.heap_live += 1;
            self.heap_bytes += size;
            self.allocs += 1;
        }
        Ok(id << OBJ_SHIFT)
    }
    pub fn release_stack(&mut self, addr: u64) {
        let o = &mut self.dynv[((addr >> OBJ_SHIFT) - DYN_BASE) as usize];
        o.live = false;
        o.sym = vec![];
        let b = std::mem::take(&mut o.bytes);
        if self.pool.len() < 256 {
            self.pool.push(b);
        }
    }
    pub fn free(&mut self, addr: u64, size: Option<u64>) -> R<()> {
        let id = addr >> OBJ_SHIFT;
        if id < DYN_BASE || id - DYN_BASE >= self.dynv.len() as u64 {
            return Err(MemErr(format!("free of a pointer that was never allocated ({:#x})", addr)));
        }
        let o = &mut self.dynv[(id - DYN_BASE) as usize];
        if o.kind != Kind::Heap {
            return Err(MemErr("free of a non-heap object".into()));
        }
        if !o.live {
            return Err(MemErr("double free".into()));
        }
        if addr as u32 != 0 {
            return Err(MemErr("free of an interior pointer".into()));
        }
        if let Some(s) = size {
            if s != o.size as u64 {
                return Err(MemErr(format!("free with size {} of an allocation of {}", s, o.size)));
            }
        }
        o.live = false;
        o.sym = vec![];
        o.bytes = vec![];
        self.heap_live -= 1;
        self.heap_bytes -= o.size as u64;
        Ok(())
    }
    /// number of live heap objects that non-constant globals (and the given objects) lead to
    pub fn held(&self, roots: &[u64]) -> u64 {
        let mut seen = vec![false; self.dynv.len()];
        let mut work: Vec<usize> = vec![];
        let mut n = 0;
        fn scan(o: &Obj, dynv: &[Obj], seen: &mut [bool], work: &mut Vec<usize>, n: &mut u64) {
            let mut k = 0;
            while k + 8 <= o.bytes.len() {
                if o.sym.is_empty() || o.sym[k..k + 8].iter().all(|x| *x == 0) {
                    let id = u64::from_le_bytes(o.bytes[k..k + 8].try_into().unwrap()) >> OBJ_SHIFT;
                    if id >= DYN_BASE && id - DYN_BASE < dynv.len() as u64 {
                        let i = (id - DYN_BASE) as usize;
                        if !seen[i] && dynv[i].live && dynv[i].kind == Kind::Heap {
                            seen[i] = true;
                            *n += 1;
                            work.push(i);
                        }
                    }
                }
                k += 8;
            }
        }
        for i in &self.touched {
            if let Some(o) = &self.glob[*i] {
                scan(o, &self.dynv, &mut seen, &mut work, &mut n);
            }
        }
        for a in roots {
            let i = ((a >> OBJ_SHIFT) - DYN_BASE) as usize;
            if i < self.dynv.len() {
                scan(&self.dynv[i], &self.dynv, &mut seen, &mut work, &mut n);
            }
        }
        while let Some(i) = work.pop() {
            scan(&self.dynv[i], &self.dynv, &mut seen, &mut work, &mut n);
        }
        n
    }
    pub fn size_of(&mut self, addr: u64) -> Option<u32> {
        self.obj(addr).ok().map(|o| o.size)
    }
    fn load_global(&mut self, i: usize) {
        let g = &self.m.globals[i];
        let mut sym = vec![];
        if g.undef.iter().any(|x| *x) {
            sym = g.undef.iter().map(|u| *u as u32).collect();
        }
        self.glob[i] = Some(Box::new(Obj {
            bytes: g.data.clone(),
            sym,
            size: g.size as u32,
            align: 16,
            kind: if g.constant { Kind::Const } else { Kind::Global },
            live: true,
        }));
        if !g.constant {
            self.touched.push(i);
        }
    }
    pub fn obj(&mut self, addr: u64) -> R<&mut Obj> {
        let id = addr >> OBJ_SHIFT;
        if id >= DYN_BASE {
            let k = id - DYN_BASE;
            if k < self.dynv.len() as u64 {
                let o = &mut self.dynv[k as usize];
                if !o.live {
                    return Err(MemErr(
                        if o.kind == Kind::Heap { "use of memory after it was freed" } else { "use of a dead stack object" }.into(),
                    ));
                }
                return Ok(o);
            }
        } else if id >= GLOBAL_BASE && ((id - GLOBAL_BASE) as usize) < self.glob.len() {
            let i = (id - GLOBAL_BASE) as usize;
            if self.glob[i].is_none() {
                self.load_global(i);
            }
            return Ok(self.glob[i].as_mut().unwrap());
        }
        Err(MemErr(format!("access through an invalid pointer ({:#x})", addr)))
    }
    fn range(&mut self, addr: u64, n: u64, write: bool) -> R<(&mut Obj, usize)> {
        let o = self.obj(addr)?;
        let off = addr & 0xffff_ffff;
        if off + n > o.size as u64 {
            return Err(MemErr(format!(
                "{} of {} bytes at offset {} of an object of {} bytes",
                if write { "write" } else { "read" },
                n,
                off as i32,
                o.size
            )));
        }
        if write && o.kind == Kind::Const {
            return Err(MemErr("write to constant memory".into()));
        }
        Ok((o, off as usize))
    }
    pub fn check(&mut self, addr: u64, n: u64) -> bool {
        n == 0 || self.range(addr, n, false).is_ok()
    }
    /// Ok(Ok(v)) concrete; Ok(Err(tags)) per byte (concrete tags carry 0 and the byte)
    pub fn load(&mut self, addr: u64, n: u64) -> R<Result<u128, Vec<(u32, u8)>>> {
        if n == 0 {
            return Ok(Ok(0));
        }
        let (o, off) = self.range(addr, n, false)?;
        let n = n as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            let mut v = 0u128;
            if n == 8 {
                v = u64::from_le_bytes(o.bytes[off..off + 8].try_into().unwrap()) as u128;
            } else {
                for k in (0..n).rev() {
                    v = (v << 8) | o.bytes[off + k] as u128;
                }
            }
            return Ok(Ok(v));
        }
        Ok(Err((0..n).map(|k| (o.sym[off + k], o.bytes[off + k])).collect()))
    }
    pub fn store(&mut self, addr: u64, n: u64, v: u128) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.range(addr, n, true)?;
        let n = n as usize;
        for k in 0..n {
            o.bytes[off + k] = (v >> (8 * k)) as u8;
        }
        if !o.sym.is_empty() {
            for s in &mut o.sym[off..off + n] {
                *s = 0
            }
        }
        Ok(())
    }
    pub fn store_sym(&mut self, addr: u64, tags: &[(u32, u8)]) -> R<()> {
        if tags.is_empty() {
            return Ok(());
        }
        let (o, off) = self.range(addr, tags.len() as u64, true)?;
        if o.sym.is_empty() {
            if tags.iter().all(|t| t.0 == 0) {
                for (k, t) in tags.iter().enumerate() {
                    o.bytes[off + k] = t.1;
                }
                return Ok(());
            }
            o.sym = vec![0; o.size as usize];
        }
        for (k, t) in tags.iter().enumerate() {
            o.sym[off + k] = t.0;
            o.bytes[off + k] = t.1;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if !overlap_ok && dst != src && dst >> 32 == src >> 32 && dst < src + n && src < dst + n {
            return Err(MemErr("memcpy of overlapping ranges".into()));
        }
        let (o, off) = self.range(src, n, false)?;
        let b: Vec<u8> = o.bytes[off..off + n as usize].to_vec();
        let s: Vec<u32> = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n as usize].to_vec() };
        let (d, doff) = self.range(dst, n, true)?;
        d.bytes[doff..doff + n as usize].copy_from_slice(&b);
        if s.is_empty() || s.iter().all(|x| *x == 0) {
            if !d.sym.is_empty() {
                d.sym[doff..doff + n as usize].fill(0);
            }
        } else {
            if d.sym.is_empty() {
                d.sym = vec![0; d.size as usize];
            }
            d.sym[doff..doff + n as usize].copy_from_slice(&s);
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, n: u64, tag: u32, b: u8) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (d, doff) = self.range(dst, n, true)?;
        d.bytes[doff..doff + n as usize].fill(b);
        if tag != 0 && d.sym.is_empty() {
            d.sym = vec![0; d.size as usize];
        }
        if !d.sym.is_empty() {
            d.sym[doff..doff + n as usize].fill(tag);
        }
        Ok(())
    }
}
