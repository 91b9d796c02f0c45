//! Parser for the textual LLVM IR that rustc emits, into a compact form the
//! symbolic executor interprets.  Everything that is not understood becomes an
//! `Unsupported` instruction: reaching one ends the path as inconclusive.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Opaque,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a + t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match *n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(16).max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

/// Constant (already resolved to addresses) or register operand.
#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u128),
    /// aggregate / vector constant
    A(Arc<Vec<Op>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bitcast,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    Nand,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    /// comparison: bits 1 equal, 2 greater, 4 less, 8 unordered
    Cmp(u8),
    FromS,
    FromU,
    ToS,
    ToU,
    ToSSat,
    ToUSat,
    Ext,
    Trunc,
    Ceil,
    Floor,
    Truncate,
    Rint,
    Round,
    Sqrt,
    Abs,
    CopySign,
    Min,
    Max,
    Fma,
    Pow,
    Powi,
    Exp,
    Exp2,
    Log,
    Log2,
    Log10,
    Sin,
    Cos,
}

impl FOp {
    /// `llvm.ceil.f64` without its prefix, or the name of a libm function
    pub fn named(n: &str) -> Option<FOp> {
        let (b, ty) = match n.split_once('.') {
            Some((b, ty)) => (b, ty),
            None => (n, ""),
        };
        let b = if ty.is_empty() { b.strip_suffix('f').filter(|x| *x != "er").unwrap_or(b) } else { b };
        Some(match b {
            "ceil" => FOp::Ceil,
            "floor" => FOp::Floor,
            "trunc" => FOp::Truncate,
            "rint" | "nearbyint" | "roundeven" => FOp::Rint,
            "round" => FOp::Round,
            "sqrt" => FOp::Sqrt,
            "fabs" => FOp::Abs,
            "copysign" => FOp::CopySign,
            "minnum" | "minimum" | "minimumnum" | "fmin" => FOp::Min,
            "maxnum" | "maximum" | "maximumnum" | "fmax" => FOp::Max,
            "fma" | "fmuladd" => FOp::Fma,
            "fmod" => FOp::Rem,
            "pow" => FOp::Pow,
            "powi" => FOp::Powi,
            "exp" => FOp::Exp,
            "exp2" => FOp::Exp2,
            "log" => FOp::Log,
            "log2" => FOp::Log2,
            "log10" => FOp::Log10,
            "sin" => FOp::Sin,
            "cos" => FOp::Cos,
            "fptosi" if ty.starts_with("sat") => FOp::ToSSat,
            "fptoui" if ty.starts_with("sat") => FOp::ToUSat,
            _ => return None,
        })
    }
}

/// value of a floating point operation on concrete operands of `w1` bits, result of `w2` bits
pub fn float_op(op: FOp, w1: u32, w2: u32, a: &[u128]) -> Option<u128> {
    let dec = |x: u128, w: u32| -> Option<f64> {
        match w {
            32 => Some(f32::from_bits(x as u32) as f64),
            64 => Some(f64::from_bits(x as u64)),
            _ => None,
        }
    };
    let enc = |x: f64, w: u32| -> Option<u128> {
        match w {
            32 => Some((x as f32).to_bits() as u128),
            64 => Some(x.to_bits() as u128),
            _ => None,
        }
    };
    let m = |x: u128, w: u32| if w >= 128 { x } else { x & ((1u128 << w) - 1) };
    match op {
        FOp::FromS | FOp::FromU => {
            let r = if op == FOp::FromS { sext128(a[0], w1) as f64 } else { a[0] as f64 };
            // straight to the narrow type: no double rounding
            if w2 == 32 {
                let r = if op == FOp::FromS { sext128(a[0], w1) as f32 } else { a[0] as f32 };
                return Some(r.to_bits() as u128);
            }
            enc(r, w2)
        }
        FOp::ToS | FOp::ToSSat => {
            let x = dec(a[0], w1)?;
            let (lo, hi) = (-(1i128 << (w2 - 1)), (1i128 << (w2 - 1)) - 1);
            Some(m((x as i128).clamp(lo, hi) as u128, w2))
        }
        FOp::ToU | FOp::ToUSat => {
            let x = dec(a[0], w1)?;
            let hi = if w2 >= 128 { u128::MAX } else { (1u128 << w2) - 1 };
            Some((x as u128).min(hi))
        }
        FOp::Ext | FOp::Trunc => enc(dec(a[0], w1)?, w2),
        FOp::Cmp(c) => {
            let (x, y) = (dec(a[0], w1)?, dec(a[1], w1)?);
            let k = if x.is_nan() || y.is_nan() {
                8
            } else if x == y {
                1
            } else if x > y {
                2
            } else {
                4
            };
            Some((c & k != 0) as u128)
        }
        FOp::Neg => Some(a[0] ^ (1u128 << (w1 - 1))),
        FOp::Abs => Some(a[0] & !(1u128 << (w1 - 1))),
        FOp::CopySign => Some((a[0] & !(1u128 << (w1 - 1))) | (a[1] & (1u128 << (w1 - 1)))),
        FOp::Powi => enc(dec(a[0], w1)?.powi(a[1] as u32 as i32), w2),
        _ => {
            let mut v = vec![];
            for x in a {
                v.push(dec(*x, w1)?);
            }
            let g = |i: usize| v.get(i).copied().unwrap_or(0.0);
            if w1 == 32 && op == FOp::Fma {
                let f = |i: usize| g(i) as f32;
                return Some(f(0).mul_add(f(1), f(2)).to_bits() as u128);
            }
            let r = match op {
                FOp::Add => g(0) + g(1),
                FOp::Sub => g(0) - g(1),
                FOp::Mul => g(0) * g(1),
                FOp::Div => g(0) / g(1),
                FOp::Rem => g(0) % g(1),
                FOp::Ceil => g(0).ceil(),
                FOp::Floor => g(0).floor(),
                FOp::Truncate => g(0).trunc(),
                FOp::Rint => g(0).round_ties_even(),
                FOp::Round => g(0).round(),
                FOp::Sqrt => g(0).sqrt(),
                FOp::Min => g(0).min(g(1)),
                FOp::Max => g(0).max(g(1)),
                FOp::Fma => g(0).mul_add(g(1), g(2)),
                FOp::Pow => g(0).powf(g(1)),
                FOp::Exp => g(0).exp(),
                FOp::Exp2 => g(0).exp2(),
                FOp::Log => g(0).ln(),
                FOp::Log2 => g(0).log2(),
                FOp::Log10 => g(0).log10(),
                FOp::Sin => g(0).sin(),
                FOp::Cos => g(0).cos(),
                _ => return None,
            };
            enc(r, w2)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Op(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    /// invoke: (normal, unwind)
    pub inv: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, u32, Ty, Op, Op),
    Icmp(Pred, u32, Ty, Op, Op),
    Cast(CastK, u32, Ty, Ty, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Alloca(u32, u64, Option<(Op, u64)>),
    Call(Box<CallI>),
    Select(u32, Ty, Op, Op, Op, bool),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Ty, Op, Op, Vec<u32>),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Ty, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<u32>, u32),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Resume(Op),
    LandingPad(u32),
    CmpXchg { dst: u32, ptr: Op, ty: Ty, cmp: Op, new: Op, acquire: bool },
    Rmw { dst: u32, op: RmwOp, ptr: Op, ty: Ty, val: Op },
    Fence,
    Freeze(u32, Op),
    /// floating point, computed on concrete values (types are integers of the same width)
    Float(FOp, u32, Ty, Ty, Vec<Op>),
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    /// undefined (uninitialised) bytes
    pub undef: Vec<bool>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
}

pub const OBJ_SHIFT: u32 = 32;
pub const GLOBAL_BASE: u64 = 16;
pub const FUNC_BASE: u64 = 0x2000_0000;

pub fn global_addr(i: usize) -> u64 {
    (GLOBAL_BASE + i as u64) << OBJ_SHIFT
}
pub fn func_addr(i: usize) -> u64 {
    (FUNC_BASE + i as u64) << OBJ_SHIFT
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    Loc(String),
    Glob(String),
    Int(i128),
    Hex(u128),
    Flt(f64),
    Str(Vec<u8>),
    P(char),
    Meta,
    Hash(String),
    Dots,
    End,
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    fn isw(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let j = i + 1;
                    let mut k = j;
                    while b[k] != b'"' {
                        k += 1
                    }
                    name = s[j..k].to_string();
                    i = k + 1;
                } else {
                    let j = i;
                    while i < b.len() && isw(b[i]) {
                        i += 1
                    }
                    name = s[j..i].to_string();
                }
                v.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (isw(b[i])) {
                    i += 1
                }
                v.push(T::Meta);
            }
            b'#' => {
                i += 1;
                let j = i;
                while i < b.len() && isw(b[i]) {
                    i += 1
                }
                v.push(T::Hash(s[j..i].to_string()));
            }
            b'"' => {
                let j = i + 1;
                let mut k = j;
                while b[k] != b'"' {
                    k += 1
                }
                v.push(T::W(s[j..k].to_string()));
                i = k + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut k = i + 2;
                let mut o = vec![];
                while b[k] != b'"' {
                    if b[k] == b'\\' {
                        if b[k + 1] == b'\\' {
                            o.push(b'\\');
                            k += 2;
                        } else {
                            o.push(u8::from_str_radix(&s[k + 1..k + 3], 16).unwrap());
                            k += 3;
                        }
                    } else {
                        o.push(b[k]);
                        k += 1;
                    }
                }
                v.push(T::Str(o));
                i = k + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                v.push(T::Dots);
                i += 3
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let j = i;
                i += 1;
                if c == b'0' && i < b.len() && b[i] == b'x' {
                    i += 1;
                    let j = i;
                    while i < b.len() && b[i].is_ascii_alphanumeric() {
                        i += 1
                    }
                    v.push(T::Hex(u128::from_str_radix(&s[j..i], 16).unwrap_or(0)));
                    continue;
                }
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                // a floating point constant such as 1.250000e+00
                if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1
                    }
                    if i + 1 < b.len() && b[i] == b'e' && (b[i + 1] == b'+' || b[i + 1] == b'-' || b[i + 1].is_ascii_digit()) {
                        i += 2;
                        while i < b.len() && b[i].is_ascii_digit() {
                            i += 1
                        }
                    }
                    v.push(T::Flt(s[j..i].parse().unwrap_or(f64::NAN)));
                    continue;
                }
                v.push(match s[j..i].parse::<i128>() {
                    Ok(x) => T::Int(x),
                    Err(_) => T::Int(s[j..i].parse::<u128>().map(|x| x as i128).unwrap_or(0)),
                });
            }
            _ if isw(c) => {
                let j = i;
                while i < b.len() && isw(b[i]) {
                    i += 1
                }
                v.push(T::W(s[j..i].to_string()));
            }
            _ => {
                v.push(T::P(c as char));
                i += 1;
            }
        }
    }
    v.push(T::End);
    v
}

struct P<'a> {
    t: Vec<T>,
    i: usize,
    cx: &'a Cx,
}

struct Cx {
    types: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
}

type Res<X> = Result<X, String>;

struct FnCx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> &T {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn next(&mut self) -> T {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == T::P(c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), T::W(x) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> Res<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c, self.peek()))
        }
    }
    fn skip_balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            T::W(w) => {
                w == "void" || w == "ptr" || w == "float" || w == "double" || w == "half" || w == "label" || w == "metadata"
                    || w == "x86_fp80" || w == "fp128" || w == "token"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('<') | T::P('[') => true,
            T::Loc(n) => self.cx.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Res<Ty> {
        let t = match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.next();
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Int(32),
                "double" => Ty::Int(64),
                "half" => Ty::Int(16),
                "label" | "metadata" | "token" | "x86_fp80" | "fp128" => Ty::Opaque,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                w => return Err(format!("type {}", w)),
            },
            T::P('{') => {
                let mut v = vec![];
                if !self.eat_p('}') {
                    loop {
                        v.push(self.ty()?);
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                    self.exp_p('}')?;
                }
                Ty::Struct(v, false)
            }
            T::P('[') => {
                let n = self.int()?;
                if !self.eat_w("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n as u64, Box::new(t))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.next();
                    let mut v = vec![];
                    if !self.eat_p('}') {
                        loop {
                            v.push(self.ty()?);
                            if !self.eat_p(',') {
                                break;
                            }
                        }
                        self.exp_p('}')?;
                    }
                    self.exp_p('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.int()?;
                    if !self.eat_w("x") {
                        return Err("vector x".into());
                    }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n as u64, Box::new(t))
                }
            }
            T::Loc(n) => self.cx.types.get(&n).cloned().ok_or(format!("named type {}", n))?,
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }
    fn int(&mut self) -> Res<i128> {
        match self.next() {
            T::Int(i) => Ok(i),
            t => Err(format!("int {:?}", t)),
        }
    }
    /// skip parameter attributes before a value
    fn skip_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                T::W(w) => {
                    if w.starts_with("f0x") {
                        return;
                    }
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "inttoptr" | "ptrtoint"
                        | "getelementptr" | "none" | "bitcast" | "sub" | "add" | "asm" | "trunc" | "xor" | "ptrtoaddr" => return,
                        _ => {}
                    }
                    self.next();
                    if self.is_p('(') {
                        self.skip_balanced();
                    } else if w == "align" {
                        self.next();
                    }
                }
                T::Hash(_) => {
                    self.next();
                }
                _ => return,
            }
        }
    }
    fn mask(v: u128, w: u32) -> u128 {
        if w >= 128 {
            v
        } else {
            v & ((1u128 << w) - 1)
        }
    }
    fn zero(ty: &Ty) -> Op {
        if ty.is_agg() {
            Op::A(Arc::new((0..ty.count()).map(|i| Self::zero(ty.elem(i))).collect()))
        } else {
            Op::C(0)
        }
    }
    /// operand of a known type
    fn val(&mut self, ty: &Ty, f: Option<&mut FnCx>) -> Res<Op> {
        self.skip_attrs();
        match self.next() {
            T::Loc(n) => match f {
                Some(f) => Ok(Op::R(f.reg(&n))),
                None => Err("local in constant".into()),
            },
            T::Glob(n) => {
                if let Some(a) = self.cx.gaddr.get(&n) {
                    Ok(Op::C(*a as u128))
                } else if let Some(i) = self.cx.fidx.get(&n) {
                    Ok(Op::C(func_addr(*i as usize) as u128))
                } else {
                    Err(format!("unknown global {}", n))
                }
            }
            T::Int(i) => Ok(Op::C(Self::mask(i as u128, ty.bits()))),
            // a hexadecimal constant is the bit pattern of a double, also for the type float
            T::Hex(h) if *ty == Ty::Int(32) => Ok(Op::C((f64::from_bits(h as u64) as f32).to_bits() as u128)),
            T::Hex(h) => Ok(Op::C(Self::mask(h, ty.bits()))),
            T::Flt(x) if *ty == Ty::Int(32) => Ok(Op::C((x as f32).to_bits() as u128)),
            T::Flt(x) if *ty == Ty::Int(64) => Ok(Op::C(x.to_bits() as u128)),
            T::W(w) => match w.as_str() {
                "true" => Ok(Op::C(1)),
                "false" | "null" | "none" => Ok(Op::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(ty)),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t, f)?;
                    self.exp_p(')')?;
                    Ok(Op::A(Arc::new(vec![v; ty.count()])))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "trunc" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t, f)?;
                    if !self.eat_w("to") {
                        return Err("to".into());
                    }
                    let t2 = self.ty()?;
                    self.exp_p(')')?;
                    Ok(match v {
                        Op::C(c) => Op::C(Self::mask(c, t2.bits())),
                        v => v,
                    })
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), T::W(_)) {
                        self.next();
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.val(&t, None)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.val(&t2, None)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (Op::C(a), Op::C(b)) => Ok(Op::C(Self::mask(
                            match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            },
                            t.bits(),
                        ))),
                        _ => Err("const expr".into()),
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), T::W(x) if x != "i8") && !self.is_p('(') {
                        self.next();
                        if self.is_w("inrange") {}
                    }
                    if self.is_p('(') {
                        // maybe inrange(...) was skipped as a word
                    }
                    self.exp_p('(')?;
                    let st = self.ty()?;
                    self.exp_p(',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt, None)?;
                    let mut off: i128 = 0;
                    let mut cur = st.clone();
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let iv = match self.val(&it, None)? {
                            Op::C(c) => sext128(c, it.bits()),
                            _ => return Err("gep idx".into()),
                        };
                        if first {
                            off += iv * st.size() as i128;
                            first = false;
                        } else {
                            off += cur.field_off(iv as usize) as i128;
                            cur = cur.elem(iv as usize).clone();
                        }
                    }
                    self.exp_p(')')?;
                    match base {
                        Op::C(b) => Ok(Op::C(Self::mask((b as i128 + off) as u128, 64))),
                        _ => Err("gep base".into()),
                    }
                }
                // bit patterns in the newer notation, f0x3F800000
                w if w.starts_with("f0x") => {
                    u128::from_str_radix(&w[3..], 16).map(Op::C).map_err(|_| format!("value word {}", w))
                }
                w => Err(format!("value word {}", w)),
            },
            T::Str(s) => Ok(Op::A(Arc::new(s.iter().map(|b| Op::C(*b as u128)).collect()))),
            T::P('{') => self.agg('}', f),
            T::P('[') => self.agg(']', f),
            T::P('<') => {
                if self.eat_p('{') {
                    let r = self.agg('}', f)?;
                    self.exp_p('>')?;
                    Ok(r)
                } else {
                    self.agg('>', f)
                }
            }
            t => Err(format!("value token {:?}", t)),
        }
    }
    fn agg(&mut self, close: char, mut f: Option<&mut FnCx>) -> Res<Op> {
        let mut v = vec![];
        if !self.eat_p(close) {
            loop {
                let t = self.ty()?;
                v.push(self.val(&t, f.as_deref_mut())?);
                if !self.eat_p(',') {
                    break;
                }
            }
            self.exp_p(close)?;
        }
        Ok(Op::A(Arc::new(v)))
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn flatten(ty: &Ty, v: &Op, out: &mut Vec<u8>) {
    let start = out.len();
    match (ty, v) {
        (Ty::Int(_), Op::C(c)) | (Ty::Ptr, Op::C(c)) => {
            let n = ty.size() as usize;
            for k in 0..n {
                out.push((c >> (8 * k)) as u8)
            }
        }
        (t, Op::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                let o = t.field_off(i) as usize;
                while out.len() < start + o {
                    out.push(0)
                }
                flatten(t.elem(i), x, out);
            }
        }
        _ => {}
    }
    while out.len() < start + ty.size() as usize {
        out.push(0)
    }
}

fn undef_map(p: &mut P, ty: &Ty) -> Option<Vec<bool>> {
    // p at value position; detect "undef" per packed struct field: only handles
    // rustc's   <{ [a x i8], [b x i8] }> <{ [a x i8] undef, ... }>
    let save = p.i;
    let mut out = vec![];
    p.skip_attrs();
    match p.next() {
        T::W(w) if w == "undef" || w == "poison" => out = vec![true; ty.size() as usize],
        T::P('<') if p.is_p('{') => {
            p.next();
            if let Ty::Struct(ts, _) = ty {
                for t in ts {
                    p.ty().ok()?;
                    let u = matches!(p.peek(), T::W(w) if w == "undef" || w == "poison");
                    p.val(t, None).ok()?;
                    out.extend(std::iter::repeat(u).take(t.size() as usize));
                    p.eat_p(',');
                }
            }
        }
        _ => {}
    }
    p.i = save;
    if out.iter().any(|x| *x) && out.len() == ty.size() as usize {
        Some(out)
    } else {
        None
    }
}

pub fn parse(text: &str) -> Res<Module> {
    let mut cx = Cx { types: HashMap::new(), gaddr: HashMap::new(), fidx: HashMap::new() };
    let mut glines: Vec<(String, &str)> = vec![];
    let mut flines: Vec<(usize, usize, bool)> = vec![]; // line range
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut aliases: Vec<(String, &str)> = vec![];
    let fname = |l: &str| -> String {
        let a = l.find('@').unwrap() + 1;
        let r = &l[a..];
        if let Some(r) = r.strip_prefix('"') {
            return r[..r.find('"').unwrap()].to_string();
        }
        let e = r.find('(').unwrap();
        r[..e].to_string()
    };
    let mut fnames: Vec<String> = vec![];
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let name = if l[1..].starts_with('"') {
                l[2..2 + l[2..].find('"').unwrap()].to_string()
            } else {
                l[1..l.find(" = ").unwrap()].to_string()
            };
            if l.contains(" alias ") && !l.contains(" constant ") {
                aliases.push((name, l));
            } else {
                glines.push((name, l));
            }
        } else if l.starts_with('%') && l.contains(" = type ") {
            let name = l[1..l.find(" = type ").unwrap()].trim_matches('"').to_string();
            let t = lex(&l[l.find(" = type ").unwrap() + 8..]);
            let mut p = P { t, i: 0, cx: &cx };
            let ty = p.ty().unwrap_or(Ty::Opaque);
            cx.types.insert(name, ty);
        } else if l.starts_with("define ") {
            let s = i;
            while lines[i] != "}" {
                i += 1
            }
            fnames.push(fname(l));
            flines.push((s, i, true));
        } else if l.starts_with("declare ") {
            fnames.push(fname(l));
            flines.push((i, i, false));
        }
        i += 1;
    }
    for (i, (n, _)) in glines.iter().enumerate() {
        cx.gaddr.insert(n.clone(), global_addr(i));
    }
    for (i, n) in fnames.iter().enumerate() {
        cx.fidx.insert(n.clone(), i as u32);
    }
    for (n, l) in &aliases {
        // @x = ... alias T, ptr @y
        if let Some(k) = l.rfind('@') {
            let target: String = l[k + 1..].chars().take_while(|c| !matches!(c, ',' | ' ')).collect();
            if let Some(f) = cx.fidx.get(&target).cloned() {
                cx.fidx.insert(n.clone(), f);
            } else if let Some(a) = cx.gaddr.get(&target).cloned() {
                cx.gaddr.insert(n.clone(), a);
            }
        }
    }
    // globals
    let mut globals = vec![];
    for (name, l) in &glines {
        let body = &l[l.find(" = ").unwrap() + 3..];
        let mut p = P { t: lex(body), i: 0, cx: &cx };
        let mut constant = false;
        let mut tls = false;
        let mut external = false;
        loop {
            match p.peek().clone() {
                T::W(w) if w == "global" || w == "constant" => {
                    constant = w == "constant";
                    p.next();
                    break;
                }
                T::W(w) => {
                    p.next();
                    if w == "thread_local" {
                        tls = true
                    }
                    if w == "external" || w == "extern_weak" {
                        external = true
                    }
                    if p.is_p('(') {
                        p.skip_balanced()
                    }
                }
                T::End => return Err(format!("global {}", name)),
                _ => {
                    p.next();
                }
            }
        }
        let ty = p.ty().map_err(|e| format!("global {}: {}", name, e))?;
        let mut data = vec![];
        let mut undef = vec![];
        if external {
            data = vec![0; ty.size() as usize];
        } else {
            if let Some(u) = undef_map(&mut p, &ty) {
                undef = u;
            }
            let v = p.val(&ty, None).map_err(|e| format!("global {}: {}", name, e))?;
            flatten(&ty, &v, &mut data);
        }
        globals.push(Global { name: name.clone(), size: ty.size(), data, undef, constant, tls });
    }
    let mut funcs = vec![];
    for (k, (s, e, def)) in flines.iter().enumerate() {
        let f = parse_fn(&cx, &fnames[k], &lines[*s..=*e], *def).map_err(|x| format!("function {}: {}", fnames[k], x))?;
        funcs.push(f);
    }
    let fidx = cx.fidx;
    Ok(Module { globals, funcs, fidx })
}

fn strip_meta(l: &str) -> &str {
    // cut ", !dbg !1, !noalias !2" tails; strings never contain " !" in instructions
    match l.find(", !") {
        Some(k) => &l[..k],
        None => l,
    }
}

fn parse_fn(cx: &Cx, name: &str, lines: &[&str], def: bool) -> Res<Func> {
    let mut fc = FnCx { regs: HashMap::new(), labels: HashMap::new() };
    // header
    let mut p = P { t: lex(lines[0]), i: 1, cx };
    while !p.is_type_start() {
        match p.next() {
            T::W(w) => {
                if p.is_p('(') {
                    p.skip_balanced();
                } else if w == "align" {
                    p.next();
                }
            }
            T::End => return Err("header".into()),
            _ => {}
        }
    }
    let ret = p.ty()?;
    p.next(); // name
    p.exp_p('(')?;
    let mut params = vec![];
    let mut anon = 0;
    if !p.eat_p(')') {
        loop {
            if *p.peek() == T::Dots {
                p.next();
                break;
            }
            p.ty()?;
            p.skip_attrs();
            if let T::Loc(n) = p.peek().clone() {
                p.next();
                params.push(fc.reg(&n));
            } else {
                params.push(fc.reg(&format!("{}", anon)));
            }
            anon += 1;
            if !p.eat_p(',') {
                break;
            }
        }
    }
    if !def {
        return Ok(Func { name: name.into(), params, ret, nregs: 0, blocks: vec![], defined: false });
    }
    // split into blocks
    let mut raw: Vec<(String, Vec<String>)> = vec![];
    let mut k = 1;
    let first_label = format!("{}", anon);
    let mut cur: (String, Vec<String>) = (first_label, vec![]);
    let mut started = false;
    while k < lines.len() - 1 {
        let l = lines[k];
        k += 1;
        if l.is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if l.starts_with('"') {
                l[1..1 + l[1..].find('"').unwrap()].to_string()
            } else {
                l[..l.find(':').ok_or("label")?].to_string()
            };
            if started {
                raw.push(std::mem::replace(&mut cur, (lab, vec![])));
            } else {
                cur.0 = lab;
            }
            started = true;
            continue;
        }
        started = true;
        let t = l.trim_start();
        if t.starts_with('#') || t.starts_with(';') {
            continue;
        }
        let mut s = String::from(t);
        // multi-line: invoke, landingpad, switch
        if t.contains("invoke ") && k < lines.len() && lines[k].trim_start().starts_with("to label") {
            s = strip_meta(&s).to_string();
            s.push(' ');
            s.push_str(lines[k].trim_start());
            k += 1;
        } else if t.contains("landingpad ") {
            while k < lines.len() && (lines[k].trim_start().starts_with("cleanup") || lines[k].trim_start().starts_with("catch") || lines[k].trim_start().starts_with("filter")) {
                s.push(' ');
                s.push_str(lines[k].trim_start());
                k += 1;
            }
        } else if t.starts_with("switch ") && t.ends_with('[') {
            while !lines[k].trim_start().starts_with(']') {
                s.push(' ');
                s.push_str(lines[k].trim_start());
                k += 1;
            }
            s.push_str(" ]");
            k += 1;
        }
        cur.1.push(strip_meta(&s).to_string());
    }
    raw.push(cur);
    for (i, (l, _)) in raw.iter().enumerate() {
        fc.labels.insert(l.clone(), i as u32);
    }
    let mut blocks = vec![];
    for (_, ls) in &raw {
        let mut b = Block { phis: vec![], insts: vec![] };
        for l in ls {
            let mut p = P { t: lex(l), i: 0, cx };
            match parse_inst(&mut p, &mut fc, &mut b) {
                Ok(()) => {}
                Err(e) => b.insts.push(Inst::Unsupported(format!("{}: {}", e, l))),
            }
        }
        blocks.push(b);
    }
    Ok(Func { name: name.into(), params, ret, nregs: fc.regs.len() as u32, blocks, defined: true })
}

fn label(p: &mut P, fc: &FnCx) -> Res<u32> {
    if !p.eat_w("label") {
        return Err("label".into());
    }
    match p.next() {
        T::Loc(n) => fc.labels.get(&n).cloned().ok_or(format!("label {}", n)),
        t => Err(format!("label {:?}", t)),
    }
}

fn parse_inst(p: &mut P, fc: &mut FnCx, b: &mut Block) -> Res<()> {
    let mut dst: Option<u32> = None;
    if let (T::Loc(n), true) = (p.peek().clone(), p.t.get(1) == Some(&T::P('='))) {
        dst = Some(fc.reg(&n));
        p.i += 2;
    }
    let w = match p.next() {
        T::W(w) => w,
        t => return Err(format!("opcode {:?}", t)),
    };
    let d = dst.unwrap_or(u32::MAX);
    let bin = |w: &str| {
        Some(match w {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            _ => return None,
        })
    };
    if let Some(o) = bin(&w) {
        while p.is_w("nuw") || p.is_w("nsw") || p.is_w("exact") || p.is_w("disjoint") {
            p.next();
        }
        let ty = p.ty()?;
        let a = p.val(&ty, Some(fc))?;
        p.exp_p(',')?;
        let c = p.val(&ty, Some(fc))?;
        b.insts.push(Inst::Bin(o, d, ty, a, c));
        return Ok(());
    }
    let fast = |p: &mut P| {
        while matches!(p.peek(), T::W(x) if matches!(x.as_str(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "nneg" | "nuw" | "nsw"))
        {
            p.next();
        }
    };
    match w.as_str() {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            fast(p);
            let ty = p.ty()?;
            let a = p.val(&ty, Some(fc))?;
            p.exp_p(',')?;
            let c = p.val(&ty, Some(fc))?;
            let op = match w.as_str() {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            b.insts.push(Inst::Float(op, d, ty.clone(), ty, vec![a, c]));
        }
        "fneg" => {
            fast(p);
            let ty = p.ty()?;
            let a = p.val(&ty, Some(fc))?;
            b.insts.push(Inst::Float(FOp::Neg, d, ty.clone(), ty, vec![a]));
        }
        "fcmp" => {
            fast(p);
            let k = match p.next() {
                T::W(w) => match w.as_str() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    w => return Err(format!("fcmp {}", w)),
                },
                t => return Err(format!("fcmp {:?}", t)),
            };
            let ty = p.ty()?;
            let a = p.val(&ty, Some(fc))?;
            p.exp_p(',')?;
            let c = p.val(&ty, Some(fc))?;
            let rt = match &ty {
                Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            };
            b.insts.push(Inst::Float(FOp::Cmp(k), d, ty, rt, vec![a, c]));
        }
        "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
            fast(p);
            let t1 = p.ty()?;
            let a = p.val(&t1, Some(fc))?;
            if !p.eat_w("to") {
                return Err("to".into());
            }
            let t2 = p.ty()?;
            let op = match w.as_str() {
                "sitofp" => FOp::FromS,
                "uitofp" => FOp::FromU,
                "fptosi" => FOp::ToS,
                "fptoui" => FOp::ToU,
                "fpext" => FOp::Ext,
                _ => FOp::Trunc,
            };
            b.insts.push(Inst::Float(op, d, t1, t2, vec![a]));
        }
        "icmp" => {
            p.eat_w("samesign");
            let pr = match p.next() {
                T::W(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    w => return Err(format!("pred {}", w)),
                },
                t => return Err(format!("pred {:?}", t)),
            };
            let ty = p.ty()?;
            let a = p.val(&ty, Some(fc))?;
            p.exp_p(',')?;
            let c = p.val(&ty, Some(fc))?;
            b.insts.push(Inst::Icmp(pr, d, ty, a, c));
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            while p.is_w("nuw") || p.is_w("nsw") || p.is_w("nneg") {
                p.next();
            }
            let t1 = p.ty()?;
            let a = p.val(&t1, Some(fc))?;
            if !p.eat_w("to") {
                return Err("to".into());
            }
            let t2 = p.ty()?;
            let k = match w.as_str() {
                "trunc" => CastK::Trunc,
                "zext" => CastK::Zext,
                "sext" => CastK::Sext,
                "bitcast" => CastK::Bitcast,
                _ => {
                    if t1.bits() >= t2.bits() {
                        CastK::Trunc
                    } else {
                        CastK::Zext
                    }
                }
            };
            b.insts.push(Inst::Cast(k, d, t1, t2, a));
        }
        "load" => {
            while p.is_w("atomic") || p.is_w("volatile") {
                p.next();
            }
            let ty = p.ty()?;
            p.exp_p(',')?;
            let pt = p.ty()?;
            let a = p.val(&pt, Some(fc))?;
            b.insts.push(Inst::Load(d, ty, a));
        }
        "store" => {
            while p.is_w("atomic") || p.is_w("volatile") {
                p.next();
            }
            let ty = p.ty()?;
            let v = p.val(&ty, Some(fc))?;
            p.exp_p(',')?;
            let pt = p.ty()?;
            let a = p.val(&pt, Some(fc))?;
            b.insts.push(Inst::Store(ty, v, a));
        }
        "getelementptr" => {
            while matches!(p.peek(), T::W(x) if x=="inbounds"||x=="nuw"||x=="nusw") {
                p.next();
            }
            let st = p.ty()?;
            p.exp_p(',')?;
            let pt = p.ty()?;
            if pt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let base = p.val(&pt, Some(fc))?;
            let mut off: i64 = 0;
            let mut idx = vec![];
            let mut cur = st.clone();
            let mut first = true;
            while p.eat_p(',') {
                let it = p.ty()?;
                let v = p.val(&it, Some(fc))?;
                if first {
                    let sz = st.size() as i64;
                    match v {
                        Op::C(c) => off = off.wrapping_add((sext128(c, it.bits()) as i64).wrapping_mul(sz)),
                        v => idx.push((v, it.bits(), sz)),
                    }
                    first = false;
                } else {
                    match v {
                        Op::C(c) => {
                            let k = sext128(c, it.bits());
                            match &cur {
                                Ty::Arr(_, t) => off = off.wrapping_add(k as i64 * t.size() as i64),
                                t => off = off.wrapping_add(t.field_off(k as usize) as i64),
                            }
                            cur = match &cur {
                                Ty::Arr(_, t) => (**t).clone(),
                                t => t.elem(k as usize).clone(),
                            };
                        }
                        v => {
                            let e = cur.elem(0).clone();
                            idx.push((v, it.bits(), e.size() as i64));
                            cur = e;
                        }
                    }
                }
            }
            b.insts.push(Inst::Gep(d, base, off, idx));
        }
        "alloca" => {
            p.eat_w("inalloca");
            let ty = p.ty()?;
            let mut n = None;
            if p.eat_p(',') && p.is_type_start() {
                let t = p.ty()?;
                let v = p.val(&t, Some(fc))?;
                n = match v {
                    Op::C(c) => {
                        b.insts.push(Inst::Alloca(d, ty.size() * c as u64, None));
                        return Ok(());
                    }
                    v => Some((v, ty.size())),
                };
            }
            b.insts.push(Inst::Alloca(d, ty.size(), n));
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if w == "tail" || w == "musttail" || w == "notail" {
                p.next();
            }
            let is_inv = w == "invoke";
            while !p.is_type_start() {
                match p.next() {
                    T::W(a) => {
                        if p.is_p('(') {
                            p.skip_balanced()
                        } else if a == "align" {
                            p.next();
                        }
                    }
                    T::End => return Err("call type".into()),
                    _ => {}
                }
            }
            let ret = p.ty()?;
            if p.is_p('(') {
                p.skip_balanced();
            }
            let callee = match p.peek().clone() {
                T::Glob(n) => {
                    p.next();
                    match p.cx.fidx.get(&n) {
                        Some(i) => Callee::Func(*i),
                        None => return Err(format!("callee {}", n)),
                    }
                }
                T::W(x) if x == "asm" => {
                    while !p.is_p('(') {
                        p.next();
                    }
                    Callee::Asm
                }
                _ => Callee::Op(p.val(&Ty::Ptr, Some(fc))?),
            };
            p.exp_p('(')?;
            let mut args = vec![];
            if !p.eat_p(')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Opaque {
                        // metadata argument
                        while !p.is_p(',') && !p.is_p(')') {
                            if p.is_p('(') {
                                p.skip_balanced();
                            } else {
                                p.next();
                            }
                        }
                    } else {
                        let v = p.val(&t, Some(fc))?;
                        args.push((t, v));
                    }
                    if !p.eat_p(',') {
                        break;
                    }
                }
                p.exp_p(')')?;
            }
            let mut inv = None;
            if is_inv {
                while !p.is_w("to") {
                    if *p.peek() == T::End {
                        return Err("invoke to".into());
                    }
                    p.next();
                }
                p.next();
                let n = label(p, fc)?;
                p.eat_w("unwind");
                let u = label(p, fc)?;
                inv = Some((n, u));
            }
            let dst = if ret == Ty::Void { None } else { dst };
            b.insts.push(Inst::Call(Box::new(CallI { dst, ret, callee, args, inv })));
        }
        "phi" => {
            fast(p);
            let ty = p.ty()?;
            let mut inc = vec![];
            loop {
                p.exp_p('[')?;
                let v = p.val(&ty, Some(fc))?;
                p.exp_p(',')?;
                let l = match p.next() {
                    T::Loc(n) => *fc.labels.get(&n).ok_or(format!("phi label {}", n))?,
                    t => return Err(format!("phi {:?}", t)),
                };
                p.exp_p(']')?;
                inc.push((l, v));
                if !p.eat_p(',') {
                    break;
                }
            }
            b.phis.push(Phi { dst: d, inc });
        }
        "select" => {
            fast(p);
            let ct = p.ty()?;
            let c = p.val(&ct, Some(fc))?;
            p.exp_p(',')?;
            let t1 = p.ty()?;
            let a = p.val(&t1, Some(fc))?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let e = p.val(&t2, Some(fc))?;
            let vc = matches!(ct, Ty::Vec(..));
            b.insts.push(Inst::Select(d, t1, c, a, e, vc));
        }
        "extractvalue" => {
            let t = p.ty()?;
            let a = p.val(&t, Some(fc))?;
            let mut ix = vec![];
            while p.eat_p(',') {
                ix.push(p.int()? as u32);
            }
            b.insts.push(Inst::ExtractValue(d, a, ix));
        }
        "insertvalue" => {
            let t = p.ty()?;
            let a = p.val(&t, Some(fc))?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let v = p.val(&t2, Some(fc))?;
            let mut ix = vec![];
            while p.eat_p(',') {
                ix.push(p.int()? as u32);
            }
            b.insts.push(Inst::InsertValue(d, t, a, v, ix));
        }
        "extractelement" => {
            let t = p.ty()?;
            let a = p.val(&t, Some(fc))?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let i = p.val(&t2, Some(fc))?;
            b.insts.push(Inst::ExtractElem(d, a, i));
        }
        "insertelement" => {
            let t = p.ty()?;
            let a = p.val(&t, Some(fc))?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let v = p.val(&t2, Some(fc))?;
            p.exp_p(',')?;
            let t3 = p.ty()?;
            let i = p.val(&t3, Some(fc))?;
            b.insts.push(Inst::InsertElem(d, t, a, v, i));
        }
        "shufflevector" => {
            let t = p.ty()?;
            let a = p.val(&t, Some(fc))?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let c = p.val(&t2, Some(fc))?;
            p.exp_p(',')?;
            let t3 = p.ty()?;
            let m = match p.val(&t3, Some(fc))? {
                Op::A(v) => v
                    .iter()
                    .map(|x| match x {
                        Op::C(c) => *c as u32,
                        _ => 0,
                    })
                    .collect(),
                _ => vec![0; t3.count()],
            };
            b.insts.push(Inst::Shuffle(d, a, c, m, t.count() as u32));
        }
        "br" => {
            if p.is_w("label") {
                let l = label(p, fc)?;
                b.insts.push(Inst::Br(l));
            } else {
                let t = p.ty()?;
                let c = p.val(&t, Some(fc))?;
                p.exp_p(',')?;
                let l1 = label(p, fc)?;
                p.exp_p(',')?;
                let l2 = label(p, fc)?;
                b.insts.push(Inst::CondBr(c, l1, l2));
            }
        }
        "switch" => {
            let t = p.ty()?;
            let c = p.val(&t, Some(fc))?;
            p.exp_p(',')?;
            let dl = label(p, fc)?;
            p.exp_p('[')?;
            let mut cs = vec![];
            while !p.is_p(']') {
                let t = p.ty()?;
                let v = match p.val(&t, Some(fc))? {
                    Op::C(c) => c,
                    _ => return Err("switch case".into()),
                };
                p.exp_p(',')?;
                let l = label(p, fc)?;
                cs.push((v, l));
            }
            b.insts.push(Inst::Switch(c, t.bits(), dl, cs));
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                b.insts.push(Inst::Ret(None));
            } else {
                let v = p.val(&t, Some(fc))?;
                b.insts.push(Inst::Ret(Some((t, v))));
            }
        }
        "unreachable" => b.insts.push(Inst::Unreachable),
        "resume" => {
            let t = p.ty()?;
            let v = p.val(&t, Some(fc))?;
            b.insts.push(Inst::Resume(v));
        }
        "landingpad" => b.insts.push(Inst::LandingPad(d)),
        "cmpxchg" => {
            while p.is_w("weak") || p.is_w("volatile") {
                p.next();
            }
            let pt = p.ty()?;
            let ptr = p.val(&pt, Some(fc))?;
            p.exp_p(',')?;
            let ty = p.ty()?;
            let cmp = p.val(&ty, Some(fc))?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let new = p.val(&t2, Some(fc))?;
            let acquire = matches!(p.peek(), T::W(w) if w!="release" && w!="monotonic");
            b.insts.push(Inst::CmpXchg { dst: d, ptr, ty, cmp, new, acquire });
        }
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.next() {
                T::W(w) => match w.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "nand" => RmwOp::Nand,
                    w => return Err(format!("rmw {}", w)),
                },
                t => return Err(format!("rmw {:?}", t)),
            };
            let pt = p.ty()?;
            let ptr = p.val(&pt, Some(fc))?;
            p.exp_p(',')?;
            let ty = p.ty()?;
            let val = p.val(&ty, Some(fc))?;
            b.insts.push(Inst::Rmw { dst: d, op, ptr, ty, val });
        }
        "fence" => b.insts.push(Inst::Fence),
        "freeze" => {
            let t = p.ty()?;
            let v = p.val(&t, Some(fc))?;
            b.insts.push(Inst::Freeze(d, v));
        }
        w => return Err(format!("opcode {}", w)),
    }
    Ok(())
}
