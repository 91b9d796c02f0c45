//! Hash-consed bit-vector expressions with light simplification.
use crate::ir::{sext128, BinOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpK {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Cmp(CmpK, E, E),
    Not(E),
    Ite(E, E, E),
    Concat(E, E),
    Extract(E, u32),
    Zext(E),
    Sext(E),
}

pub const UNINIT_BASE: u32 = 1 << 20;
pub type VarSet = [u64; 4];

pub struct Arena {
    pub nodes: Vec<(Node, u32)>,
    pub vars: Vec<VarSet>,
    /// number of constant leaves of an ite-tree whose leaves are all constants (1 for a constant), 0 otherwise
    pub cleaves: Vec<u16>,
    map: FxMap<(Node, u32), E>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
    pub t: E,
    pub f: E,
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOp::SDiv => {
            if b == 0 {
                return None;
            }
            sext128(a, w).wrapping_div(sext128(b, w)) as u128
        }
        BinOp::SRem => {
            if b == 0 {
                return None;
            }
            sext128(a, w).wrapping_rem(sext128(b, w)) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = sext128(a, w);
            (s >> (b.min(127) as u32)) as u128
        }
    };
    Some(mask(r, w))
}

pub fn fold_cmp(k: CmpK, a: u128, b: u128, w: u32) -> bool {
    match k {
        CmpK::Eq => a == b,
        CmpK::Ult => a < b,
        CmpK::Ule => a <= b,
        CmpK::Slt => sext128(a, w) < sext128(b, w),
        CmpK::Sle => sext128(a, w) <= sext128(b, w),
    }
}

const MAXLEAF: u16 = 24;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            vars: vec![],
            cleaves: vec![],
            map: Default::default(),
            memo: vec![],
            stamp: 0,
            t: 0,
            f: 0,
        };
        a.f = a.cst(0, 1);
        a.t = a.cst(1, 1);
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].1
    }
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize].0
    }
    pub fn konst(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].0 {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let mut vs: VarSet = [0; 4];
        let mut add = |x: E, me: &Arena| {
            for i in 0..4 {
                vs[i] |= me.vars[x as usize][i]
            }
        };
        let mut cl = 0u16;
        match n {
            Node::Const(_) => cl = 1,
            Node::Var(k) => {
                let b = if k >= UNINIT_BASE { 128 + (k - UNINIT_BASE) % 128 } else { k % 128 };
                vs[(b / 64) as usize] |= 1 << (b % 64);
            }
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                add(a, self);
                add(b, self)
            }
            Node::Not(a) | Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => add(a, self),
            Node::Ite(c, a, b) => {
                add(c, self);
                add(a, self);
                add(b, self);
                let (x, y) = (self.cleaves[a as usize], self.cleaves[b as usize]);
                if x > 0 && y > 0 && x + y <= MAXLEAF {
                    cl = x + y
                }
            }
        }
        self.nodes.push((n, w));
        self.vars.push(vs);
        self.cleaves.push(cl);
        self.memo.push((0, 0));
        self.map.insert((n, w), e);
        e
    }
    pub fn cst(&mut self, c: u128, w: u32) -> E {
        self.mk(Node::Const(mask(c, w)), w)
    }
    pub fn var(&mut self, k: u32, w: u32) -> E {
        self.mk(Node::Var(k), w)
    }
    fn cite(&self, e: E) -> bool {
        self.cleaves[e as usize] > 1
    }
    fn map_leaves(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E) -> E {
        match self.node(e) {
            Node::Ite(c, a, b) => {
                let x = self.map_leaves(a, f);
                let y = self.map_leaves(b, f);
                self.ite(c, x, y)
            }
            _ => f(self, e),
        }
    }
    pub fn leaves(&self, e: E, out: &mut Vec<u128>) -> bool {
        if self.cleaves[e as usize] == 0 {
            return false;
        }
        match self.node(e) {
            Node::Ite(_, a, b) => {
                self.leaves(a, out);
                self.leaves(b, out);
            }
            Node::Const(c) => out.push(c),
            _ => {}
        }
        true
    }
    pub fn not(&mut self, a: E) -> E {
        match self.node(a) {
            Node::Const(c) => self.cst(c ^ 1, 1),
            Node::Not(x) => x,
            Node::Cmp(CmpK::Ult, x, y) => self.cmp(CmpK::Ule, y, x),
            Node::Cmp(CmpK::Ule, x, y) => self.cmp(CmpK::Ult, y, x),
            Node::Cmp(CmpK::Slt, x, y) => self.cmp(CmpK::Sle, y, x),
            Node::Cmp(CmpK::Sle, x, y) => self.cmp(CmpK::Slt, y, x),
            _ => self.mk(Node::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn eqc(&mut self, a: E, c: u128) -> E {
        let w = self.w(a);
        let k = self.cst(c, w);
        self.cmp(CmpK::Eq, a, k)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.konst(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = self.node(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.konst(a) {
            return self.cst(c, w);
        }
        if let Node::Zext(x) = self.node(a) {
            return self.zext(x, w);
        }
        if self.cite(a) {
            return self.map_leaves(a, &mut |s, l| {
                let c = s.konst(l).unwrap();
                s.cst(c, w)
            });
        }
        self.mk(Node::Zext(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.konst(a) {
            return self.cst(sext128(c, wa) as u128, w);
        }
        if let Node::Zext(x) = self.node(a) {
            return self.zext(x, w);
        }
        if self.cite(a) {
            return self.map_leaves(a, &mut |s, l| {
                let c = s.konst(l).unwrap();
                s.cst(sext128(c, wa) as u128, w)
            });
        }
        if wa == 1 {
            let ones = self.cst(u128::MAX, w);
            let z = self.cst(0, w);
            return self.ite(a, ones, z);
        }
        self.mk(Node::Sext(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if lo == 0 && w == wa {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => return self.cst(c >> lo, w),
            Node::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                let le = self.extract(l, lo, wl - lo);
                let he = self.extract(h, 0, w - (wl - lo));
                return self.concat(he, le);
            }
            Node::Zext(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.cst(0, w);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, wx - lo);
                return self.zext(y, w);
            }
            Node::Sext(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
            }
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            Node::Ite(..) if self.cite(a) => {
                return self.map_leaves(a, &mut |s, l| {
                    let c = s.konst(l).unwrap();
                    s.cst(c >> lo, w)
                });
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.konst(h), self.konst(l)) {
            return self.cst((a << wl) | b, w);
        }
        if self.konst(h) == Some(0) {
            return self.zext(l, w);
        }
        // canonical: right-nested on the high side: concat(concat(a,b),c)
        if let (Node::Extract(x, lx), Node::Extract(y, ly)) = (self.node(h), self.node(l)) {
            if x == y && lx == ly + wl {
                return self.extract(x, ly, w);
            }
        }
        if let (Node::Extract(x, lx), true) = (self.node(h), true) {
            // high part of x over x's own low part (l is x's low part when lx == width and l == extract) handled above
            if lx == wl {
                let low = self.extract(x, 0, wl);
                if low == l {
                    return self.extract(x, 0, w);
                }
            }
        }
        if let Node::Zext(hx) = self.node(h) {
            // concat(zext(a), l) = zext(concat(a,l))
            let inner = self.concat(hx, l);
            return self.zext(inner, w);
        }
        if let Node::Concat(l1, l2) = self.node(l) {
            let x = self.concat(h, l1);
            return self.concat(x, l2);
        }
        if let (Node::Concat(h1, h2), Node::Extract(y, ly)) = (self.node(h), self.node(l)) {
            if let Node::Extract(x, lx) = self.node(h2) {
                if x == y && lx == ly + wl {
                    let w2 = self.w(h2);
                    let m = self.extract(x, ly, w2 + wl);
                    return self.concat(h1, m);
                }
            }
        }
        match (self.node(h), self.node(l)) {
            (Node::Ite(c, a, b), Node::Ite(d, x, y)) if c == d => {
                let p = self.concat(a, x);
                let q = self.concat(b, y);
                return self.ite(c, p, q);
            }
            (_, Node::Const(lc)) if self.cite(h) => {
                return self.map_leaves(h, &mut |s, x| {
                    let c = s.konst(x).unwrap();
                    s.cst((c << wl) | lc, w)
                });
            }
            (Node::Const(hc), _) if self.cite(l) => {
                return self.map_leaves(l, &mut |s, x| {
                    let c = s.konst(x).unwrap();
                    s.cst((hc << wl) | c, w)
                });
            }
            _ => {}
        }
        if self.cite(h) && self.cite(l) && self.cleaves[h as usize] * self.cleaves[l as usize] <= MAXLEAF {
            return self.map_leaves(h, &mut |s, x| s.concat(x, l));
        }
        self.mk(Node::Concat(h, l), w)
    }
    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = fold_bin(op, x, y, w) {
                return self.cst(r, w);
            }
        }
        let ones = mask(u128::MAX, w);
        use BinOp::*;
        let comm = matches!(op, Add | Mul | And | Or | Xor);
        let (mut a, mut b, mut kb) = (a, b, kb);
        if comm && (ka.is_some() || (kb.is_none() && b < a)) {
            std::mem::swap(&mut a, &mut b);
            kb = self.konst(b);
        }
        if let Some(k) = kb {
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if k == 0 => return a,
                And if k == 0 => return b,
                And if k == ones => return a,
                Or if k == ones => return b,
                Mul if k == 0 => return b,
                Mul | UDiv if k == 1 => return a,
                Xor if w == 1 => return self.not(a),
                Sub => {
                    let n = self.cst(0u128.wrapping_sub(k), w);
                    return self.bin(Add, a, n);
                }
                Mul if k.is_power_of_two() => {
                    let s = self.cst(k.trailing_zeros() as u128, w);
                    return self.bin(Shl, a, s);
                }
                UDiv if k.is_power_of_two() => {
                    let s = self.cst(k.trailing_zeros() as u128, w);
                    return self.bin(LShr, a, s);
                }
                URem if k.is_power_of_two() => {
                    let s = self.cst(k - 1, w);
                    return self.bin(And, a, s);
                }
                And if (k + 1).is_power_of_two() => {
                    let n = k.trailing_ones();
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
                And if w <= 64 && {
                    let sh = k.trailing_zeros();
                    mask(k >> sh, w - sh) == mask(u128::MAX, w - sh)
                } =>
                {
                    // mask of high bits
                    let n = k.trailing_zeros();
                    let x = self.extract(a, n, w - n);
                    let z = self.cst(0, n);
                    return self.concat(x, z);
                }
                Shl => {
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.cst(0, k);
                    return self.concat(x, z);
                }
                LShr => {
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                AShr => {
                    let k = (k.min(w as u128 - 1)) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
                _ => {}
            }
            if self.cite(a) {
                return self.map_leaves(a, &mut |s, l| s.bin(op, l, b));
            }
            if let (Add, Node::Bin(Add, x, y)) = (op, self.node(a)) {
                if let Some(c) = self.konst(y) {
                    let s = self.cst(c.wrapping_add(k), w);
                    return self.bin(Add, x, s);
                }
            }
        } else if self.konst(a).is_some() && self.cite(b) {
            return self.map_leaves(b, &mut |s, l| s.bin(op, a, l));
        }
        if a == b {
            match op {
                And | Or => return a,
                Xor | Sub => return self.cst(0, w),
                _ => {}
            }
        }
        if w == 1 && matches!(op, And | Or) {
            let na = self.not(a);
            if na == b {
                return if op == And { self.f } else { self.t };
            }
        }
        if op == Or {
            // disjoint halves
            for (x, y) in [(a, b), (b, a)] {
                if let Node::Concat(h, l) = self.node(x) {
                    if self.konst(l) == Some(0) {
                        let wl = self.w(l);
                        if let Node::Zext(z) = self.node(y) {
                            if self.w(z) <= wl {
                                let zz = self.zext(z, wl);
                                return self.concat(h, zz);
                            }
                        }
                    }
                }
                // zext(concat(h,0)) | zext(z)
                if let (Node::Zext(xi), Node::Zext(z)) = (self.node(x), self.node(y)) {
                    if let Node::Concat(h, l) = self.node(xi) {
                        let wl = self.w(l);
                        if self.konst(l) == Some(0) && self.w(z) <= wl {
                            let zz = self.zext(z, wl);
                            let c = self.concat(h, zz);
                            return self.zext(c, w);
                        }
                    }
                }
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }
    /// smallest and largest value of a constant, or of constant bits followed by unknown ones
    fn head_range(&self, e: E) -> Option<(u128, u128)> {
        if let Some(c) = self.konst(e) {
            return Some((c, c));
        }
        match self.node(e) {
            Node::Concat(h, l) => {
                let c = self.konst(h)?;
                let wl = self.w(l);
                Some((c << wl, c << wl | mask(u128::MAX, wl)))
            }
            _ => None,
        }
    }
    pub fn cmp(&mut self, k: CmpK, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return if fold_cmp(k, x, y, w) { self.t } else { self.f };
        }
        if a == b {
            return if matches!(k, CmpK::Eq | CmpK::Ule | CmpK::Sle) { self.t } else { self.f };
        }
        let ones = mask(u128::MAX, w);
        match k {
            CmpK::Eq => {
                let (a, b) = if ka.is_some() || (kb.is_none() && b < a) { (b, a) } else { (a, b) };
                let kb = self.konst(b);
                if let Some(c) = kb {
                    if w == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match self.node(a) {
                        Node::Zext(x) => {
                            let wx = self.w(x);
                            if c >> wx != 0 {
                                return self.f;
                            }
                            return self.eqc(x, c);
                        }
                        Node::Sext(x) => {
                            let wx = self.w(x);
                            if mask(sext128(mask(c, wx), wx) as u128, w) != c {
                                return self.f;
                            }
                            return self.eqc(x, mask(c, wx));
                        }
                        Node::Bin(BinOp::Add, x, y) => {
                            if let Some(d) = self.konst(y) {
                                return self.eqc(x, c.wrapping_sub(d));
                            }
                        }
                        Node::Bin(BinOp::Xor, x, y) => {
                            if let Some(d) = self.konst(y) {
                                return self.eqc(x, c ^ d);
                            }
                        }
                        Node::Concat(h, l) => {
                            let wl = self.w(l);
                            let p = self.eqc(h, c >> wl);
                            let q = self.eqc(l, mask(c, wl));
                            return self.and(p, q);
                        }
                        Node::Ite(d, x, y) if self.konst(x).is_some() || self.konst(y).is_some() || self.cite(a) => {
                            let p = self.eqc(x, c);
                            let q = self.eqc(y, c);
                            return self.ite(d, p, q);
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::Zext(x), Node::Zext(y)) if self.w(x) == self.w(y) => return self.cmp(CmpK::Eq, x, y),
                        (Node::Sext(x), Node::Sext(y)) if self.w(x) == self.w(y) => return self.cmp(CmpK::Eq, x, y),
                        (Node::Concat(h, l), Node::Concat(h2, l2)) if self.w(l) == self.w(l2) => {
                            let p = self.cmp(CmpK::Eq, h, h2);
                            let q = self.cmp(CmpK::Eq, l, l2);
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                    if w == 1 {
                        let x = self.bin(BinOp::Xor, a, b);
                        return self.not(x);
                    }
                }
                self.mk(Node::Cmp(CmpK::Eq, a, b), 1)
            }
            _ => {
                // the high bits of one side are known and the other side is a constant
                if ka.is_some() || kb.is_some() {
                    let (ra, rb) = (self.head_range(a), self.head_range(b));
                    if let (Some((la, ha)), Some((lb, hb))) = (ra, rb) {
                        let flip = if matches!(k, CmpK::Slt | CmpK::Sle) { 1u128 << (w - 1) } else { 0 };
                        let (la, ha, lb, hb) = (la ^ flip, ha ^ flip, lb ^ flip, hb ^ flip);
                        let strict = matches!(k, CmpK::Ult | CmpK::Slt);
                        if ha < lb || (!strict && ha <= lb) {
                            return self.t;
                        }
                        if la > hb || (strict && la >= hb) {
                            return self.f;
                        }
                    }
                }
                if let Some(c) = kb {
                    match k {
                        CmpK::Ult if c == 0 => return self.f,
                        CmpK::Ult if c == 1 => return self.eqc(a, 0),
                        CmpK::Ult if c == ones => {
                            let e = self.eqc(a, ones);
                            return self.not(e);
                        }
                        CmpK::Ule if c == ones => return self.t,
                        CmpK::Ule if c == 0 => return self.eqc(a, 0),
                        _ => {}
                    }
                    if let Node::Zext(x) = self.node(a) {
                        let wx = self.w(x);
                        match k {
                            CmpK::Ult | CmpK::Ule => {
                                if c >> wx != 0 {
                                    return self.t;
                                }
                                let y = self.cst(c, wx);
                                return self.cmp(k, x, y);
                            }
                            CmpK::Slt | CmpK::Sle => {
                                // zext is non-negative
                                if c >> (w - 1) & 1 == 1 {
                                    return self.f;
                                }
                                let k2 = if k == CmpK::Slt { CmpK::Ult } else { CmpK::Ule };
                                return self.cmp(k2, a, b);
                            }
                            _ => {}
                        }
                    }
                    if self.cite(a) {
                        return self.map_leaves(a, &mut |s, l| s.cmp(k, l, b));
                    }
                }
                if let Some(c) = ka {
                    match k {
                        CmpK::Ule if c == 0 => return self.t,
                        CmpK::Ule if c == 1 => {
                            let e = self.eqc(b, 0);
                            return self.not(e);
                        }
                        CmpK::Ult if c == ones => return self.f,
                        CmpK::Ult if c == 0 => {
                            let e = self.eqc(b, 0);
                            return self.not(e);
                        }
                        _ => {}
                    }
                    if let Node::Zext(x) = self.node(b) {
                        let wx = self.w(x);
                        match k {
                            CmpK::Ult | CmpK::Ule => {
                                if c >> wx != 0 {
                                    return self.f;
                                }
                                let y = self.cst(c, wx);
                                return self.cmp(k, y, x);
                            }
                            CmpK::Slt | CmpK::Sle => {
                                if c >> (w - 1) & 1 == 1 {
                                    return self.t;
                                }
                                let k2 = if k == CmpK::Slt { CmpK::Ult } else { CmpK::Ule };
                                return self.cmp(k2, a, b);
                            }
                            _ => {}
                        }
                    }
                    if self.cite(b) {
                        return self.map_leaves(b, &mut |s, l| s.cmp(k, a, l));
                    }
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        let k2 = match k {
                            CmpK::Slt => CmpK::Ult,
                            CmpK::Sle => CmpK::Ule,
                            k => k,
                        };
                        return self.cmp(k2, x, y);
                    }
                }
                self.mk(Node::Cmp(k, a, b), 1)
            }
        }
    }
    pub fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.cmp(CmpK::Eq, a, b),
            Pred::Ne => {
                let e = self.cmp(CmpK::Eq, a, b);
                self.not(e)
            }
            Pred::Ult => self.cmp(CmpK::Ult, a, b),
            Pred::Ule => self.cmp(CmpK::Ule, a, b),
            Pred::Ugt => self.cmp(CmpK::Ult, b, a),
            Pred::Uge => self.cmp(CmpK::Ule, b, a),
            Pred::Slt => self.cmp(CmpK::Slt, a, b),
            Pred::Sle => self.cmp(CmpK::Sle, a, b),
            Pred::Sgt => self.cmp(CmpK::Slt, b, a),
            Pred::Sge => self.cmp(CmpK::Sle, b, a),
        }
    }
    /// value of `e` when variable k has value m(k)
    pub fn eval(&mut self, e: E, m: &[u64], fresh: bool) -> u128 {
        if fresh {
            self.stamp += 1;
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u64]) -> u128 {
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let (n, w) = self.nodes[e as usize];
        let r = match n {
            Node::Const(c) => c,
            Node::Var(k) => {
                if k >= UNINIT_BASE {
                    0
                } else {
                    mask(m.get(k as usize).copied().unwrap_or(0) as u128, w)
                }
            }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                fold_bin(op, x, y, w).unwrap_or(mask(u128::MAX, w))
            }
            Node::Cmp(k, a, b) => {
                let wa = self.w(a);
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                fold_cmp(k, x, y, wa) as u128
            }
            Node::Not(a) => self.ev(a, m) ^ 1,
            Node::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            Node::Concat(h, l) => {
                let wl = self.w(l);
                (self.ev(h, m) << wl) | self.ev(l, m)
            }
            Node::Extract(a, lo) => mask(self.ev(a, m) >> lo, w),
            Node::Zext(a) => self.ev(a, m),
            Node::Sext(a) => {
                let wa = self.w(a);
                mask(sext128(self.ev(a, m), wa) as u128, w)
            }
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }
    pub fn var_list(&self, e: E, out: &mut Vec<(u32, E)>, seen: &mut std::collections::HashSet<E>) {
        let mut st = vec![e];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            match self.node(e) {
                Node::Var(k) => out.push((k, e)),
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                    st.push(a);
                    st.push(b)
                }
                Node::Not(a) | Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => st.push(a),
                Node::Ite(c, a, b) => {
                    st.push(c);
                    st.push(a);
                    st.push(b)
                }
                Node::Const(_) => {}
            }
        }
    }
}
