//! The reference model all harnesses compare the real world with, the component types, and the
//! generators of histories. Everything goes through the public API of xecs.
#![allow(dead_code, unused_macros)]
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;
use xecs::*;

/// greatest entity id the model knows
pub const N: usize = 300;
/// number of component types
pub const T: usize = 10;

pub fn eid(e: usize) -> EntityId {
    EntityId::new(e + gap()).unwrap()
}
/// the number the model gives an id; not one of its entities if the id is one in front of them
pub fn un(id: EntityId) -> usize {
    id.get().wrapping_sub(gap())
}

/// A component type. `s` is a serial number unique among all values of the type, `v` the payload,
/// which the harness leaves symbolic.
pub trait Comp: Component + Sized {
    const K: usize;
    /// can values be told apart
    const IDENT: bool = true;
    fn mk(s: u32, v: u32) -> Self;
    fn s(&self) -> u32;
    fn v(&self) -> u32;
    fn set(&mut self, s: u32, v: u32) {
        *self = Self::mk(s, v)
    }
    fn fresh() -> u32 {
        v32()
    }
}
#[derive(Clone, Copy)]
pub struct A {
    v: u32,
    s: u32,
}
impl Comp for A {
    const K: usize = 0;
    fn mk(s: u32, v: u32) -> Self {
        A { s, v }
    }
    fn s(&self) -> u32 {
        self.s
    }
    fn v(&self) -> u32 {
        self.v
    }
}
#[derive(Clone, Copy)]
pub struct B {
    s: u16,
    v: u16,
}
impl Comp for B {
    const K: usize = 1;
    fn mk(s: u32, v: u32) -> Self {
        B { s: s as u16, v: v as u16 }
    }
    fn s(&self) -> u32 {
        self.s as u32
    }
    fn v(&self) -> u32 {
        self.v as u32
    }
    fn fresh() -> u32 {
        sym(16, 0, 65535) as u32
    }
}
#[derive(Clone, Copy)]
pub struct C {
    w: u64,
    s: u32,
    v: u32,
    x: u64,
}
impl Comp for C {
    const K: usize = 2;
    fn mk(s: u32, v: u32) -> Self {
        C { w: 7, s, v, x: s as u64 }
    }
    fn s(&self) -> u32 {
        if self.w != 7 || self.x != self.s as u64 {
            return 0;
        }
        self.s
    }
    fn v(&self) -> u32 {
        self.v
    }
}
#[derive(Clone, Copy)]
pub struct D {
    s: u8,
    v: u8,
}
impl Comp for D {
    const K: usize = 3;
    fn mk(s: u32, v: u32) -> Self {
        D { s: s as u8, v: v as u8 }
    }
    fn s(&self) -> u32 {
        self.s as u32
    }
    fn v(&self) -> u32 {
        self.v as u32
    }
    fn fresh() -> u32 {
        v8() as u32
    }
}
/// owns heap memory
pub struct E(Box<(u32, u32)>);
impl Comp for E {
    const K: usize = 4;
    fn mk(s: u32, v: u32) -> Self {
        E(Box::new((s, v)))
    }
    fn s(&self) -> u32 {
        self.0 .0
    }
    fn v(&self) -> u32 {
        self.0 .1
    }
}
/// zero-sized
#[derive(Clone, Copy)]
pub struct Z;
impl Comp for Z {
    const K: usize = 5;
    const IDENT: bool = false;
    fn mk(_: u32, _: u32) -> Self {
        Z
    }
    fn s(&self) -> u32 {
        0
    }
    fn v(&self) -> u32 {
        0
    }
    fn fresh() -> u32 {
        0
    }
}
/// over-aligned, with padding
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct F {
    s: u32,
    v: u8,
}
impl Comp for F {
    const K: usize = 6;
    fn mk(s: u32, v: u32) -> Self {
        F { s, v: v as u8 }
    }
    fn s(&self) -> u32 {
        self.s
    }
    fn v(&self) -> u32 {
        self.v as u32
    }
    fn fresh() -> u32 {
        v8() as u32
    }
}

/// one byte: its serials end at 63
#[derive(Clone, Copy)]
pub struct G(u8);
impl Comp for G {
    const K: usize = 7;
    fn mk(s: u32, v: u32) -> Self {
        G((s as u8) << 2 | v as u8 & 3)
    }
    fn s(&self) -> u32 {
        self.0 as u32 >> 2
    }
    fn v(&self) -> u32 {
        self.0 as u32 & 3
    }
    fn fresh() -> u32 {
        sym(8, 0, 3) as u32
    }
}
/// large: 200 bytes
#[derive(Clone, Copy)]
pub struct L {
    v: u64,
    w: [u64; 23],
    s: u64,
}
impl Comp for L {
    const K: usize = 8;
    fn mk(s: u32, v: u32) -> Self {
        L { v: v as u64, w: [s as u64; 23], s: s as u64 }
    }
    fn s(&self) -> u32 {
        if self.w[0] != self.s || self.w[11] != self.s || self.w[22] != self.s {
            return 0;
        }
        self.s as u32
    }
    fn v(&self) -> u32 {
        self.v as u32
    }
}

/// large, and owns heap memory
pub struct H {
    b: Box<(u32, u32)>,
    w: [u64; 24],
}
impl Comp for H {
    const K: usize = 9;
    fn mk(s: u32, v: u32) -> Self {
        H { b: Box::new((s, v)), w: [s as u64; 24] }
    }
    fn s(&self) -> u32 {
        if self.w[0] != self.b.0 as u64 || self.w[12] != self.w[0] || self.w[23] != self.w[0] {
            return 0;
        }
        self.b.0
    }
    fn v(&self) -> u32 {
        self.b.1
    }
}

pub struct Ids {
    i: usize,
    n: usize,
    lst: *const [u16; 64],
    last: usize,
}
impl Iterator for Ids {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.i == self.n {
            let e = self.last;
            self.last = 0;
            return if e == 0 { None } else { Some(e) };
        }
        let i = self.i;
        self.i += 1;
        Some(if self.lst.is_null() { i + 1 } else { unsafe { (*self.lst)[i] as usize } })
    }
}

/// What the world should be: which entities exist, and for each type the serial (0: none) and
/// payload of each entity's component.
#[derive(Clone)]
pub struct M {
    /// greatest id issued so far
    pub n: usize,
    /// only the ids of `lst` are looked at; no other owns a component
    pub few: bool,
    pub lst: [u16; 64],
    pub ln: usize,
    pub ex: [bool; N + 2],
    pub s: [[u32; N + 2]; T],
    pub v: [[u32; N + 2]; T],
    pub reg: [bool; T],
    pub next: [u32; T],
}
impl M {
    pub fn new() -> M {
        M {
            n: 0,
            few: false,
            lst: [0; 64],
            ln: 0,
            ex: [false; N + 2],
            s: [[0; N + 2]; T],
            v: [[0; N + 2]; T],
            reg: [false; T],
            next: [1; T],
        }
    }
    /// the ids to look at
    pub fn ids(&self) -> Ids {
        Ids { i: 0, n: if self.few { self.ln } else { self.n }, lst: if self.few { &self.lst } else { std::ptr::null() }, last: 0 }
    }
    /// the same and one that was never issued
    pub fn ids1(&self) -> Ids {
        let mut r = self.ids();
        r.last = self.n + 1;
        r
    }
    pub fn follow(&mut self, e: usize) {
        if e >= 1 && e <= self.n && !self.lst[..self.ln].contains(&(e as u16)) {
            self.lst[self.ln] = e as u16;
            self.ln += 1;
        }
    }
    pub fn serial(&mut self, k: usize) -> u32 {
        let s = self.next[k];
        self.next[k] += 1;
        s
    }
    pub fn has(&self, k: usize, e: usize) -> bool {
        self.s[k][e] != 0
    }
    pub fn count(&self, k: usize) -> usize {
        let mut c = 0;
        for e in self.ids() {
            c += self.has(k, e) as usize;
        }
        c
    }
    pub fn owner(&self, k: usize, s: u32) -> usize {
        if s == 0 {
            return 0;
        }
        for e in self.ids() {
            if self.s[k][e] == s {
                return e;
            }
        }
        0
    }
    pub fn gone(&mut self, e: usize) {
        self.ex[e] = false;
        for k in 0..T {
            self.s[k][e] = 0;
        }
    }
    pub fn living(&self) -> usize {
        let mut c = 0;
        for e in self.ids() {
            c += self.ex[e] as usize;
        }
        c
    }
    /// the i-th (from 0) living entity
    pub fn nth(&self, i: usize) -> usize {
        let mut c = 0;
        for e in self.ids() {
            if self.ex[e] {
                if c == i {
                    return e;
                }
                c += 1;
            }
        }
        fail(9001)
    }
    /// a symbolic choice of a living entity
    pub fn any_living(&self) -> usize {
        self.nth(pick(self.living()))
    }
}

// ---------------------------------------------------------------- queries and the model

/// Which entities a query selects.
pub trait Sat {
    /// is the size hint documented to be exact
    const EXACT: bool;
    fn sat(m: &M, e: usize) -> bool;
}
impl<'a, X: Comp> Sat for &'a X {
    const EXACT: bool = true;
    fn sat(m: &M, e: usize) -> bool {
        m.has(X::K, e)
    }
}
impl<'a, X: Comp> Sat for &'a mut X {
    const EXACT: bool = true;
    fn sat(m: &M, e: usize) -> bool {
        m.has(X::K, e)
    }
}
impl<X: Sat> Sat for Without<X> {
    const EXACT: bool = false;
    fn sat(m: &M, e: usize) -> bool {
        !X::sat(m, e)
    }
}
macro_rules! sat_group {
    ($g:ident) => {
        impl<X: Sat, Y: Sat> Sat for $g<X, Y> {
            const EXACT: bool = true;
            fn sat(m: &M, e: usize) -> bool {
                X::sat(m, e) & Y::sat(m, e)
            }
        }
    };
}
sat_group!(FullOwning);
sat_group!(PartialOwning);
sat_group!(NonOwning);
macro_rules! sat_tuple {
    ($($t:ident)*) => {
        impl<$($t: Sat),*> Sat for ($($t,)*) {
            const EXACT: bool = false;
            fn sat(m: &M, e: usize) -> bool { true $(& $t::sat(m, e))* }
        }
    };
}
sat_tuple!(P1 P2);
sat_tuple!(P1 P2 P3);
sat_tuple!(P1 P2 P3 P4);
sat_tuple!(P1 P2 P3 P4 P5);

/// What can be asked of an item of a query.
pub trait Probe {
    const IDENT: bool;
    /// the entity the item belongs to judging by its serial numbers, 0 if there is none
    fn owner(&self, m: &M) -> usize;
    /// is every part of the item the component of entity `e`
    fn ser(&self, m: &M, e: usize) -> bool;
    /// has every part the payload of the component of entity `e`
    fn val(&self, m: &M, e: usize) -> bool;
    /// write new values through the mutable parts, which belong to `e`
    fn write(&mut self, m: &mut M, e: usize);
    fn log(&self, tag: u64);
    /// serial and payload of every part
    fn parts(&self, out: &mut [(u32, u32); 5], i: &mut usize);
}
impl<'a, X: Comp> Probe for &'a X {
    const IDENT: bool = X::IDENT;
    fn owner(&self, m: &M) -> usize {
        m.owner(X::K, self.s())
    }
    fn ser(&self, m: &M, e: usize) -> bool {
        !X::IDENT || m.s[X::K][e] == self.s()
    }
    fn val(&self, m: &M, e: usize) -> bool {
        m.v[X::K][e] == self.v()
    }
    fn write(&mut self, _: &mut M, _: usize) {}
    fn log(&self, tag: u64) {
        log(tag + 10 * X::K as u64, self.v() as u64)
    }
    fn parts(&self, out: &mut [(u32, u32); 5], i: &mut usize) {
        out[*i] = (self.s(), self.v());
        *i += 1;
    }
}
impl<'a, X: Comp> Probe for &'a mut X {
    const IDENT: bool = X::IDENT;
    fn owner(&self, m: &M) -> usize {
        m.owner(X::K, self.s())
    }
    fn ser(&self, m: &M, e: usize) -> bool {
        !X::IDENT || m.s[X::K][e] == self.s()
    }
    fn val(&self, m: &M, e: usize) -> bool {
        m.v[X::K][e] == self.v()
    }
    fn write(&mut self, m: &mut M, e: usize) {
        let s = if X::IDENT { m.serial(X::K) } else { 1 };
        let v = X::fresh();
        self.set(s, v);
        m.s[X::K][e] = s;
        m.v[X::K][e] = v;
    }
    fn log(&self, tag: u64) {
        log(tag + 10 * X::K as u64, self.v() as u64)
    }
    fn parts(&self, out: &mut [(u32, u32); 5], i: &mut usize) {
        out[*i] = (self.s(), self.v());
        *i += 1;
    }
}
macro_rules! probe_tuple {
    ($($t:ident $i:tt)*) => {
        impl<$($t: Probe),*> Probe for ($($t,)*) {
            const IDENT: bool = false $(| $t::IDENT)*;
            fn owner(&self, m: &M) -> usize {
                $(if $t::IDENT { return self.$i.owner(m) })*
                0
            }
            fn ser(&self, m: &M, e: usize) -> bool { true $(& self.$i.ser(m, e))* }
            fn val(&self, m: &M, e: usize) -> bool { true $(& self.$i.val(m, e))* }
            fn write(&mut self, m: &mut M, e: usize) { $(self.$i.write(m, e);)* }
            fn log(&self, tag: u64) { $(self.$i.log(tag);)* }
            fn parts(&self, out: &mut [(u32, u32); 5], i: &mut usize) { $(self.$i.parts(out, i);)* }
        }
    };
}
probe_tuple!(P1 0 P2 1);
probe_tuple!(P1 0 P2 1 P3 2);
probe_tuple!(P1 0 P2 1 P3 2 P4 3);
probe_tuple!(P1 0 P2 1 P3 2 P4 3 P5 4);

/// how `observe` fetches the items
pub const NEXT: u32 = 0;
pub const IDS: u32 = 1;
/// a symbolic choice before each fetch
pub const MIX: u32 = 2;
pub const HOW: u32 = 3;
/// write new values through every item
pub const WRITE: u32 = 4;
/// check size hints
pub const HINT: u32 = 8;
/// look an arbitrary id up before iterating
pub const LOOK: u32 = 16;
/// look an arbitrary id up at a symbolic point of the iteration
pub const LOOKMID: u32 = 32;
/// keep fetching after the end
pub const END: u32 = 64;

pub mod code {
    pub const ITEM_NO_ENTITY: u64 = 101;
    pub const ITEM_NOT_SAT: u64 = 102;
    pub const ITEM_TWICE: u64 = 103;
    pub const ITEM_MIXED: u64 = 104;
    pub const ITEM_VALUE: u64 = 105;
    pub const ITEM_MISSING: u64 = 106;
    pub const ITEM_EXTRA: u64 = 107;
    pub const ITEM_ID: u64 = 108;
    pub const HINT_LO: u64 = 110;
    pub const HINT_HI: u64 = 111;
    pub const HINT_EXACT: u64 = 112;
    pub const AFTER_END: u64 = 113;
    pub const LOOK_WRONG: u64 = 120;
    pub const LOOK_OWNER: u64 = 121;
    pub const LOOK_VALUE: u64 = 122;
    pub const READ_PRESENCE: u64 = 130;
    pub const READ_SERIAL: u64 = 131;
    pub const READ_VALUE: u64 = 132;
    pub const EXIST: u64 = 133;
    pub const COUNT: u64 = 134;
    pub const DETACH_PRESENCE: u64 = 140;
    pub const DETACH_SERIAL: u64 = 141;
    pub const DETACH_VALUE: u64 = 142;
    pub const CREATE_LIVING: u64 = 150;
    pub const CREATE_RANGE: u64 = 151;
    pub const PANIC_MISSING: u64 = 160;
    pub const PANIC_UNEXPECTED: u64 = 161;
    pub const REGISTERED: u64 = 162;
    pub const HEAP: u64 = 170;
    pub const DROPS: u64 = 171;
}

/// an arbitrary id, up to the greatest there is; of those in front of the model's only a few
pub fn any_id() -> EntityId {
    let id = sym(64, 1, u64::MAX) as usize;
    if gap() > 0 {
        assume((id <= 4) | (id >= gap()));
    }
    EntityId::new(id).unwrap()
}

/// an arbitrary id; of those issued only the followed ones
pub fn some_id(m: &M) -> EntityId {
    let id = any_id();
    if m.few {
        let mut ok = un(id) > m.n;
        for e in m.ids() {
            ok |= un(id) == e;
        }
        assume(ok);
    }
    id
}
/// Look an arbitrary id up: the item must be there exactly if the model says so.
fn look<Q: Sat, I: Probe>(m: &mut M, q: &mut (dyn QueryIterator<Item = I> + '_), write: bool) {
    let id = some_id(m);
    let mut exp = false;
    for e in m.ids() {
        exp |= (un(id) == e) & Q::sat(m, e);
    }
    match q.from_id(id) {
        Some(mut it) => {
            check(exp, code::LOOK_WRONG);
            let mut own = false;
            let mut val = false;
            for e in m.ids() {
                let me = un(id) == e;
                own |= me & it.ser(m, e);
                val |= me & it.val(m, e);
            }
            check(own, code::LOOK_OWNER);
            check(val, code::LOOK_VALUE);
            if write {
                // one path per entity from here on
                let e = fork(un(id));
                it.write(m, e);
            }
            cover(2);
        }
        None => {
            check(!exp, code::LOOK_WRONG);
            cover(3);
        }
    }
}

/// Iterate a query of the world and compare everything it says with the model.
pub fn observe<'a, Q>(w: &'a World, m: &mut M, flags: u32)
where
    Q: Queryable<'a> + Sat,
    Q::Item: Probe,
{
    let mut q = w.query::<Q>();
    let q = &mut *q;
    let mut total = 0;
    for e in m.ids() {
        total += Q::sat(m, e) as usize;
    }
    if flags & LOOK != 0 {
        look::<Q, Q::Item>(m, q, flags & WRITE != 0);
    }
    let look_at = if flags & LOOKMID != 0 { pick(total + 1) } else { usize::MAX };
    let mut seen = [false; N + 2];
    let mut got = 0;
    loop {
        if flags & HINT != 0 {
            let (lo, hi) = q.size_hint();
            check(lo <= total - got, code::HINT_LO);
            check(hi.map_or(true, |h| h >= total - got), code::HINT_HI);
            if Q::EXACT {
                check(lo == total - got && hi == Some(total - got), code::HINT_EXACT);
            }
        }
        if look_at == got {
            look::<Q, Q::Item>(m, q, false);
        }
        let with_id = match flags & HOW {
            NEXT => false,
            IDS => true,
            _ => pick(2) == 1,
        };
        let (id, mut it) = if with_id {
            match q.next_with_id() {
                Some((id, it)) => (un(id), it),
                None => break,
            }
        } else {
            match q.next() {
                Some(it) => (0, it),
                None => break,
            }
        };
        check(got < total, code::ITEM_EXTRA);
        let e = if <Q::Item as Probe>::IDENT {
            let e = it.owner(m);
            check(e != 0, code::ITEM_NO_ENTITY);
            if with_id {
                check(id == e, code::ITEM_ID);
            }
            e
        } else if with_id {
            check((id != 0) & (id <= m.n), code::ITEM_ID);
            id
        } else {
            got += 1;
            continue;
        };
        check(Q::sat(m, e), code::ITEM_NOT_SAT);
        check(!seen[e], code::ITEM_TWICE);
        seen[e] = true;
        check(it.ser(m, e), code::ITEM_MIXED);
        check(it.val(m, e), code::ITEM_VALUE);
        it.log(1000 + e as u64 * 100);
        if flags & WRITE != 0 {
            it.write(m, e);
        }
        got += 1;
    }
    check(got == total, code::ITEM_MISSING);
    log(2, got as u64);
    if got > 0 {
        cover(4);
    }
    if flags & END != 0 {
        for _ in 0..2 {
            check(q.next().is_none(), code::AFTER_END);
            check(q.next_with_id().is_none(), code::AFTER_END);
        }
        if flags & HINT != 0 {
            let (lo, hi) = q.size_hint();
            check(lo == 0, code::HINT_LO);
            if Q::EXACT {
                check(hi == Some(0), code::HINT_EXACT);
            }
        }
        if flags & LOOK != 0 {
            look::<Q, Q::Item>(m, q, false);
        }
    }
}

// ---------------------------------------------------------------- operations on world and model

/// ids around the sizes at which blocks, pages and tables grow
pub const EDGE: [usize; 14] = [1, 7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 128, 129];

pub struct S {
    pub w: World,
    pub m: M,
}

/// the outcomes of `attempt` that matter
pub fn must_panic<X, F: FnOnce() -> X>(f: F) {
    check(attempt(f).is_none(), code::PANIC_MISSING);
    cover(7);
}
pub fn must_not_panic<X, F: FnOnce() -> X>(f: F) -> X {
    match attempt(f) {
        Some(x) => x,
        None => fail(code::PANIC_UNEXPECTED),
    }
}

/// a new world with the entities in front of those the model counts
pub fn world() -> World {
    let w = World::new();
    if gap() > 0 {
        let r = w.create_entities(gap()).into_ids();
        check((r.start.get() == 1) & (r.end.get() == gap() + 1), code::CREATE_RANGE);
    }
    w
}

impl S {
    pub fn new() -> S {
        S { w: world(), m: M::new() }
    }
    pub fn reg<X: Comp>(&mut self) {
        self.w.register::<X>();
        self.m.reg[X::K] = true;
    }
    pub fn regs(&mut self, k: usize) {
        if k > 0 {
            self.reg::<A>()
        }
        if k > 1 {
            self.reg::<B>()
        }
        if k > 2 {
            self.reg::<C>()
        }
        if k > 3 {
            self.reg::<D>()
        }
        if k > 4 {
            self.reg::<E>()
        }
    }
    pub fn created(&mut self, id: usize) {
        check((id >= 1) & (id <= N), code::CREATE_LIVING);
        let id = fork(id);
        check(!self.m.ex[id], code::CREATE_LIVING);
        self.m.ex[id] = true;
        if id > self.m.n {
            self.m.n = id;
        }
        if self.m.few {
            self.m.follow(id);
        }
    }
    pub fn create(&mut self) -> usize {
        let id = un(self.w.create_entity().into_id());
        self.created(id);
        id
    }
    pub fn creates(&mut self, n: usize) {
        for _ in 0..n {
            self.create();
        }
    }
    /// `n` entities at once, of which only a few, far apart, will be used: their ids are returned in
    /// the order in which to use them. Mode 0: one of them is arbitrary; mode 1: all are among
    /// the ids where sizes change.
    pub fn far(&mut self, n: usize, mode: usize) -> [usize; 3] {
        let r = self.w.create_entities(n).into_ids();
        check((un(r.start) == 1) & (un(r.end) == n + 1), code::CREATE_RANGE);
        for e in 1..=n {
            self.m.ex[e] = true;
        }
        self.m.n = n;
        self.m.few = true;
        let ids = if mode == 0 {
            let e = 2 + pick(n - 2);
            let o = if e + 1 < n { e + 1 } else { e - 1 };
            [[e, o, 1], [n, e, o], [e, 1, n], [1, n, e]][pick(4)]
        } else {
            let mut l = EDGE;
            let mut c = 0;
            while c < l.len() && l[c] <= n {
                c += 1;
            }
            let mut r = [0; 3];
            for i in 0..3 {
                let j = pick(c);
                r[i] = l[j];
                l[j] = l[c - 1];
                c -= 1;
            }
            r
        };
        for e in ids {
            self.m.follow(e);
        }
        for e in ids {
            self.m.follow(e - 1);
            self.m.follow(e + 1);
        }
        self.m.follow(1);
        self.m.follow(n);
        ids
    }
    /// a world of `n` entities, three of which, far apart, own components of two or three types;
    /// groups `set` made before or after; then `k` operations on the three
    pub fn far_world(&mut self, n: usize, mode: usize, k: u64, set: usize) -> [usize; 3] {
        self.regs(3);
        let ids = self.far(n, mode);
        let early = set == 0 || pick(2) == 1;
        if early {
            groups(self, set);
        }
        for e in ids {
            self.att::<A>(e);
        }
        self.att::<B>(ids[2]);
        self.att::<B>(ids[0]);
        if set >= 4 || set == 0 {
            self.att::<C>(ids[1]);
            self.att::<C>(ids[0]);
        }
        if !early {
            groups(self, set);
        }
        for _ in 0..k {
            let c = pick(13);
            let e = ids[c % 3];
            if c == 12 {
                self.create();
            } else if self.m.ex[e] {
                match c / 3 {
                    0 => self.det::<A>(e),
                    1 => self.att::<B>(e),
                    2 => self.det::<B>(e),
                    _ => self.remove(e),
                }
            }
        }
        ids
    }
    pub fn remove(&mut self, e: usize) {
        self.w.remove_entity(eid(e));
        self.m.gone(e);
    }
    pub fn put<X: Comp>(&mut self, e: usize) -> X {
        let s = if X::IDENT { self.m.serial(X::K) } else { 1 };
        let v = X::fresh();
        self.m.s[X::K][e] = s;
        self.m.v[X::K][e] = v;
        X::mk(s, v)
    }
    pub fn att<X: Comp>(&mut self, e: usize) {
        let x = self.put::<X>(e);
        self.w.attach_component(eid(e), x);
    }
    /// attach through an entity handle
    pub fn att_h<X: Comp>(&mut self, e: usize) {
        let x = self.put::<X>(e);
        let h = self.w.entity(eid(e));
        check(h.is_some(), code::EXIST);
        if let Some(h) = h {
            h.attach(x);
        }
    }
    pub fn det_check<X: Comp>(&mut self, e: usize, r: Option<X>) {
        check(r.is_some() == self.m.has(X::K, e), code::DETACH_PRESENCE);
        if let Some(x) = &r {
            check(!X::IDENT || x.s() == self.m.s[X::K][e], code::DETACH_SERIAL);
            check(x.v() == self.m.v[X::K][e], code::DETACH_VALUE);
            log(3, x.v() as u64);
        }
        self.m.s[X::K][e] = 0;
    }
    pub fn det<X: Comp>(&mut self, e: usize) {
        let r = self.w.detach_component::<X>(eid(e));
        self.det_check(e, r);
    }
    pub fn det_h<X: Comp>(&mut self, e: usize) {
        let h = self.w.entity(eid(e));
        check(h.is_some(), code::EXIST);
        let r = h.and_then(|h| h.detach::<X>());
        self.det_check(e, r);
    }
    pub fn wr<X: Comp>(&mut self, e: usize) {
        let x = self.w.entity_component_write::<X>(eid(e));
        check(x.is_some() == self.m.has(X::K, e), code::READ_PRESENCE);
        if let Some(mut x) = x {
            let s = if X::IDENT { self.m.serial(X::K) } else { 1 };
            let v = X::fresh();
            x.set(s, v);
            self.m.s[X::K][e] = s;
            self.m.v[X::K][e] = v;
        }
    }
    pub fn att_k(&mut self, k: usize, e: usize) {
        match k {
            0 => self.att::<A>(e),
            1 => self.att::<B>(e),
            2 => self.att::<C>(e),
            3 => self.att::<D>(e),
            9 => self.att::<H>(e),
            _ => self.att::<E>(e),
        }
    }
    pub fn det_k(&mut self, k: usize, e: usize) {
        match k {
            0 => self.det::<A>(e),
            1 => self.det::<B>(e),
            2 => self.det::<C>(e),
            3 => self.det::<D>(e),
            9 => self.det::<H>(e),
            _ => self.det::<E>(e),
        }
    }
    /// attach a symbolic sequence of distinct living entities a component of type `k`:
    /// every arrangement of the storage that attaching can give
    pub fn populate(&mut self, k: usize, n: usize) {
        let mut left = [0usize; 8];
        let mut c = 0;
        for e in 1..=n {
            if self.m.ex[e] & !self.m.has(k, e) {
                left[c] = e;
                c += 1;
            }
        }
        while c > 0 {
            let i = pick(c + 1);
            if i == c {
                break;
            }
            self.att_k(k, left[i]);
            left[i] = left[c - 1];
            c -= 1;
        }
    }
    /// attach the entities of a symbolic subset, in ascending order, a component of type `k`
    pub fn subset(&mut self, k: usize, n: usize) {
        for e in 1..=n {
            if self.m.ex[e] && pick(2) == 1 {
                self.att_k(k, e);
            }
        }
    }
    /// one arbitrary operation: attach or detach one of the first `types` types to or from a
    /// living entity, remove one, create one
    pub fn op(&mut self, types: usize) {
        let l = self.m.living();
        let c = pick(2 * types * l + l + 1);
        if c < types * l {
            let e = self.m.nth(c % l);
            self.att_k(c / l, e);
        } else if c < 2 * types * l {
            let c = c - types * l;
            let e = self.m.nth(c % l);
            self.det_k(c / l, e);
        } else if c < 2 * types * l + l {
            let e = self.m.nth(c - 2 * types * l);
            self.remove(e);
            cover(5);
        } else {
            self.create();
        }
    }
    pub fn ops(&mut self, types: usize, k: u64) {
        for _ in 0..k {
            self.op(types);
        }
    }
    pub fn verify_t<X: Comp>(&self) {
        if !self.m.reg[X::K] {
            return;
        }
        for e in self.m.ids1() {
            let r = self.w.entity_component_read::<X>(eid(e));
            check(r.is_some() == self.m.has(X::K, e), code::READ_PRESENCE);
            if let Some(x) = r {
                check(!X::IDENT || x.s() == self.m.s[X::K][e], code::READ_SERIAL);
                check(x.v() == self.m.v[X::K][e], code::READ_VALUE);
                log(e as u64 * 100 + X::K as u64, x.v() as u64);
            }
        }
        let n = self.w.components_read::<X>().map_or(usize::MAX, |s| s.count());
        check(n == self.m.count(X::K), code::COUNT);
    }
    /// every entity and component is what the model says, entity by entity
    pub fn verify(&self) {
        for e in self.m.ids1() {
            check(self.w.exist(eid(e)) == self.m.ex[e], code::EXIST);
        }
        self.verify_t::<A>();
        self.verify_t::<B>();
        self.verify_t::<C>();
        self.verify_t::<D>();
        self.verify_t::<E>();
        self.verify_t::<Z>();
        self.verify_t::<F>();
        self.verify_t::<G>();
        self.verify_t::<L>();
        self.verify_t::<H>();
        cover(1);
    }
    /// make one of the groups of A and B (and C); returns nothing, panics if refused
    pub fn group(&mut self, g: usize) {
        let w = &mut self.w;
        match g {
            FULL_AB => w.make_group(full_owning::<A, B>()),
            PART_AB => w.make_group(partial_owning::<A, B>()),
            NON_AB => w.make_group(non_owning::<A, B>()),
            FULL_BA => w.make_group(full_owning::<B, A>()),
            PART_BA => w.make_group(partial_owning::<B, A>()),
            NON_BA => w.make_group(non_owning::<B, A>()),
            FULL_BC => w.make_group(full_owning::<B, C>()),
            PART_BC => w.make_group(partial_owning::<B, C>()),
            NON_BC => w.make_group(non_owning::<B, C>()),
            PART_CA => w.make_group(partial_owning::<C, A>()),
            NON_CA => w.make_group(non_owning::<C, A>()),
            FULL_CA => w.make_group(full_owning::<C, A>()),
            NON_AC => w.make_group(non_owning::<A, C>()),
            _ => fail(9002),
        }
    }
    /// observe a group made by `group`, shared, with ids
    pub fn see_group(&mut self, g: usize, flags: u32) {
        let (w, m) = (&self.w, &mut self.m);
        match g {
            FULL_AB => observe::<FullOwning<&A, &B>>(w, m, flags),
            PART_AB => observe::<PartialOwning<&A, &B>>(w, m, flags),
            NON_AB => observe::<NonOwning<&A, &B>>(w, m, flags),
            FULL_BA => observe::<FullOwning<&B, &A>>(w, m, flags),
            PART_BA => observe::<PartialOwning<&B, &A>>(w, m, flags),
            NON_BA => observe::<NonOwning<&B, &A>>(w, m, flags),
            FULL_BC => observe::<FullOwning<&B, &C>>(w, m, flags),
            PART_BC => observe::<PartialOwning<&B, &C>>(w, m, flags),
            NON_BC => observe::<NonOwning<&B, &C>>(w, m, flags),
            PART_CA => observe::<PartialOwning<&C, &A>>(w, m, flags),
            NON_CA => observe::<NonOwning<&C, &A>>(w, m, flags),
            FULL_CA => observe::<FullOwning<&C, &A>>(w, m, flags),
            NON_AC => observe::<NonOwning<&A, &C>>(w, m, flags),
            _ => fail(9002),
        }
    }
}
pub const FULL_AB: usize = 0;
pub const PART_AB: usize = 1;
pub const NON_AB: usize = 2;
pub const FULL_BA: usize = 3;
pub const PART_BA: usize = 4;
pub const NON_BA: usize = 5;
pub const FULL_BC: usize = 6;
pub const PART_BC: usize = 7;
pub const NON_BC: usize = 8;
pub const PART_CA: usize = 9;
pub const NON_CA: usize = 10;
pub const FULL_CA: usize = 11;
pub const NON_AC: usize = 12;

/// sets of groups a world can have at once
pub fn groups(s: &mut S, set: usize) {
    match set {
        0 => {}
        1 => s.group(FULL_AB),
        2 => s.group(PART_AB),
        3 => s.group(NON_AB),
        // groups that share storages
        4 => {
            s.group(FULL_AB);
            s.group(NON_AB);
            s.group(NON_BC);
        }
        5 => {
            s.group(PART_AB);
            s.group(PART_BC);
            s.group(PART_CA);
        }
        6 => {
            s.group(NON_AB);
            s.group(NON_BA);
            s.group(PART_CA);
        }
        7 => {
            s.group(NON_BC);
            s.group(FULL_AB);
            s.group(PART_CA);
        }
        8 => {
            s.group(PART_BA);
            s.group(NON_CA);
            s.group(PART_AB);
        }
        _ => fail(9003),
    }
}
pub fn see(s: &mut S, set: usize, flags: u32) {
    match set {
        0 => {}
        1 => s.see_group(FULL_AB, flags),
        2 => s.see_group(PART_AB, flags),
        3 => s.see_group(NON_AB, flags),
        4 => {
            s.see_group(FULL_AB, flags);
            s.see_group(NON_AB, flags);
            s.see_group(NON_BC, flags);
        }
        5 => {
            s.see_group(PART_AB, flags);
            s.see_group(PART_BC, flags);
            s.see_group(PART_CA, flags);
        }
        6 => {
            s.see_group(NON_AB, flags);
            s.see_group(NON_BA, flags);
            s.see_group(PART_CA, flags);
        }
        7 => {
            s.see_group(NON_BC, flags);
            s.see_group(FULL_AB, flags);
            s.see_group(PART_CA, flags);
        }
        8 => {
            s.see_group(PART_BA, flags);
            s.see_group(NON_CA, flags);
            s.see_group(PART_AB, flags);
        }
        _ => fail(9003),
    }
}
