//! Worlds of many component types, groups and resources.
use crate::m::code;
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;
use xecs::*;

pub const K: usize = 24;
/// entities
const NE: usize = 4;

/// 24 component types, of four sizes
#[derive(Clone, Copy)]
pub struct C<const I: usize, X> {
    s: u32,
    v: u32,
    x: X,
}
trait Pad: Copy + Send + Sync + 'static {
    fn mk(s: u32) -> Self;
    fn ok(&self, s: u32) -> bool;
}
impl Pad for () {
    fn mk(_: u32) {}
    fn ok(&self, _: u32) -> bool {
        true
    }
}
impl Pad for [u64; 6] {
    fn mk(s: u32) -> Self {
        [s as u64; 6]
    }
    fn ok(&self, s: u32) -> bool {
        self[0] == s as u64 && self[5] == s as u64
    }
}
impl Pad for [u8; 3] {
    fn mk(s: u32) -> Self {
        [s as u8; 3]
    }
    fn ok(&self, s: u32) -> bool {
        *self == [s as u8; 3]
    }
}
trait Ty: Component + Sized {
    const I: usize;
    fn mk(s: u32, v: u32) -> Self;
    fn get(&self) -> (u32, u32);
}
impl<const J: usize, X: Pad> Ty for C<J, X> {
    const I: usize = J;
    fn mk(s: u32, v: u32) -> Self {
        C { s, v, x: X::mk(s) }
    }
    fn get(&self) -> (u32, u32) {
        (if self.x.ok(self.s) { self.s } else { 0 }, self.v)
    }
}
type T0 = C<0, ()>;
type T1 = C<1, [u64; 6]>;
type T2 = C<2, ()>;
type T3 = C<3, [u8; 3]>;
type T4 = C<4, ()>;
type T5 = C<5, ()>;
type T6 = C<6, [u64; 6]>;
type T7 = C<7, ()>;
type T8 = C<8, [u8; 3]>;
type T9 = C<9, ()>;
type T10 = C<10, ()>;
type T11 = C<11, [u64; 6]>;
type T12 = C<12, ()>;
type T13 = C<13, [u8; 3]>;
type T14 = C<14, ()>;
type T15 = C<15, ()>;
type T16 = C<16, [u64; 6]>;
type T17 = C<17, ()>;
type T18 = C<18, [u8; 3]>;
type T19 = C<19, ()>;
type T20 = C<20, ()>;
type T21 = C<21, [u64; 6]>;
type T22 = C<22, ()>;
type T23 = C<23, [u8; 3]>;
macro_rules! every {
    ($m:ident ! ($($a:tt)*)) => {
        $m!(T0, $($a)*); $m!(T1, $($a)*); $m!(T2, $($a)*); $m!(T3, $($a)*); $m!(T4, $($a)*); $m!(T5, $($a)*);
        $m!(T6, $($a)*); $m!(T7, $($a)*); $m!(T8, $($a)*); $m!(T9, $($a)*); $m!(T10, $($a)*); $m!(T11, $($a)*);
        $m!(T12, $($a)*); $m!(T13, $($a)*); $m!(T14, $($a)*); $m!(T15, $($a)*); $m!(T16, $($a)*); $m!(T17, $($a)*);
        $m!(T18, $($a)*); $m!(T19, $($a)*); $m!(T20, $($a)*); $m!(T21, $($a)*); $m!(T22, $($a)*); $m!(T23, $($a)*);
    };
}
macro_rules! one {
    ($t:ty, $k:expr, $f:ident, $($a:expr),*) => {
        if $k == <$t as Ty>::I {
            $f::<$t>($($a),*)
        }
    };
}
macro_rules! all {
    ($t:ty, $f:ident, $($a:expr),*) => {
        $f::<$t>($($a),*)
    };
}

pub struct W {
    w: World,
    ex: [bool; NE + 2],
    s: [[u32; NE + 2]; K],
    v: [[u32; NE + 2]; K],
    next: u32,
    n: usize,
    /// which groups there are
    g: [bool; 40],
}
fn id(e: usize) -> EntityId {
    EntityId::new(e).unwrap()
}
fn register<X: Ty>(h: &mut W) {
    check(!h.w.has_registered::<X>(), code::REGISTERED);
    h.w.register::<X>();
    check(h.w.has_registered::<X>(), code::REGISTERED);
}
fn attach<X: Ty>(h: &mut W, e: usize) {
    let (s, v) = (h.next, v32());
    h.next += 1;
    h.s[X::I][e] = s;
    h.v[X::I][e] = v;
    h.w.attach_component(id(e), X::mk(s, v));
}
fn detach<X: Ty>(h: &mut W, e: usize) {
    let r = h.w.detach_component::<X>(id(e));
    check(r.is_some() == (h.s[X::I][e] != 0), code::DETACH_PRESENCE);
    if let Some(x) = r {
        check(x.get().0 == h.s[X::I][e], code::DETACH_SERIAL);
        check(x.get().1 == h.v[X::I][e], code::DETACH_VALUE);
    }
    h.s[X::I][e] = 0;
}
fn verify<X: Ty>(h: &W) {
    let mut total = 0;
    for e in 1..=h.n + 1 {
        let had = h.s[X::I][e] != 0;
        total += had as usize;
        let r = h.w.entity_component_read::<X>(id(e));
        check(r.is_some() == had, code::READ_PRESENCE);
        if let Some(x) = r {
            check(x.get().0 == h.s[X::I][e], code::READ_SERIAL);
            check(x.get().1 == h.v[X::I][e], code::READ_VALUE);
        }
    }
    let mut q = h.w.query::<&X>();
    let mut got = 0;
    while let Some((i, x)) = q.next_with_id() {
        check(i.get() <= h.n && x.get().0 == h.s[X::I][i.get()], code::ITEM_MIXED);
        got += 1;
    }
    check(got == total, code::ITEM_MISSING);
}
/// the query of a group against what its two types own
macro_rules! seen {
    ($h:expr, $g:ident, $x:ty, $y:ty) => {{
        let h: &W = &$h;
        let (a, b) = (<$x>::I, <$y>::I);
        let mut total = 0;
        for e in 1..=h.n {
            total += (h.s[a][e] != 0 && h.s[b][e] != 0) as usize;
        }
        let mut q = h.w.query::<$g<&$x, &mut $y>>();
        check(q.size_hint() == (total, Some(total)), code::HINT_EXACT);
        let mut got = 0;
        let mut last = 0;
        while let Some((i, (x, y))) = q.next_with_id() {
            let e = i.get();
            check(e <= h.n && e != last, code::ITEM_TWICE);
            check(x.get().0 == h.s[a][e] && y.get().0 == h.s[b][e], code::ITEM_MIXED);
            check((x.get().1 == h.v[a][e]) & (y.get().1 == h.v[b][e]), code::ITEM_VALUE);
            last = e;
            got += 1;
        }
        check(got == total, code::ITEM_MISSING);
    }};
}
macro_rules! groups {
    ($($i:literal $f:ident $g:ident $x:ident $y:ident;)*) => {
        /// how many groups there can be
        const NG: usize = 0 $(+ { let _ = $i; 1 })*;
        fn make(h: &mut W, i: usize) {
            match i {
                $($i => h.w.make_group($f::<$x, $y>()),)*
                _ => {}
            }
            h.g[i] = true;
        }
        fn see(h: &mut W) {
            $(if h.g[$i] { seen!(*h, $g, $x, $y); })*
        }
    };
}
groups! {
    0 full_owning FullOwning T0 T1;
    1 non_owning NonOwning T1 T2;
    2 partial_owning PartialOwning T2 T0;
    3 partial_owning PartialOwning T3 T0;
    4 non_owning NonOwning T0 T4;
    5 partial_owning PartialOwning T4 T3;
    6 full_owning FullOwning T5 T6;
    7 non_owning NonOwning T7 T0;
    8 non_owning NonOwning T0 T8;
    9 non_owning NonOwning T9 T0;
    10 full_owning FullOwning T10 T9;
    11 non_owning NonOwning T10 T11;
    12 partial_owning PartialOwning T12 T11;
    13 non_owning NonOwning T23 T0;
    14 full_owning FullOwning T22 T23;
    15 partial_owning PartialOwning T21 T22;
    16 partial_owning PartialOwning T20 T0;
    17 non_owning NonOwning T19 T18;
    18 full_owning FullOwning T18 T17;
    19 partial_owning PartialOwning T16 T15;
    20 non_owning NonOwning T0 T15;
    21 non_owning NonOwning T14 T13;
    22 full_owning FullOwning T13 T14;
    23 non_owning NonOwning T0 T1;
}

/// 24 component types on 3 entities, 24 groups made before or after them in either order; `k`
/// operations of any type on any entity
#[no_mangle]
pub extern "C-unwind" fn h_many(k: u64, types: u64, _c: u64, _d: u64) {
    let live = heap_live();
    let types = types as usize;
    let mut h = W { w: World::new(), ex: [false; NE + 2], s: [[0; NE + 2]; K], v: [[0; NE + 2]; K], next: 1, n: 0, g: [false; 40] };
    every!(all!(register, &mut h));
    for e in 1..=3 {
        let i = h.w.create_entity().into_id();
        check(i.get() == e, code::CREATE_RANGE);
        h.ex[e] = true;
        h.n = e;
    }
    let when = pick(4);
    if when == 0 {
        for i in 0..NG {
            make(&mut h, i);
        }
    }
    // the first owns all, the second every other, the third every third
    for t in 0..K {
        for e in 1..=3 {
            if t % e == 0 {
                every!(one!(t, attach, &mut h, e));
            }
        }
        if when == 1 {
            make(&mut h, t);
        }
    }
    if when == 2 {
        for i in 0..NG {
            make(&mut h, NG - 1 - i);
        }
    }
    if when == 3 {
        for i in 0..NG {
            make(&mut h, i * 7 % NG);
        }
    }
    for _ in 0..k {
        let c = pick(2 * types + 2);
        let e = 1 + pick(3);
        if !h.ex[e] {
            continue;
        }
        if c < 2 * types {
            // spread over all the types
            let t = (c / 2) * (K - 1) / (types - 1).max(1);
            if c % 2 == 0 {
                every!(one!(t, attach, &mut h, e));
            } else {
                every!(one!(t, detach, &mut h, e));
            }
        } else if c == 2 * types {
            h.w.remove_entity(id(e));
            h.ex[e] = false;
            for t in 0..K {
                h.s[t][e] = 0;
            }
        } else if h.n < NE {
            let i = h.w.create_entity().into_id();
            let i = fork(i.get());
            check(i <= NE && !h.ex[i], code::CREATE_LIVING);
            h.ex[i] = true;
            h.n = h.n.max(i);
            attach::<T0>(&mut h, i);
            attach::<T23>(&mut h, i);
            attach::<T9>(&mut h, i);
        }
    }
    every!(all!(verify, &h));
    see(&mut h);
    for e in 1..=3 {
        if h.ex[e] {
            h.w.remove_entity(id(e));
            h.ex[e] = false;
            for t in 0..K {
                h.s[t][e] = 0;
            }
            break;
        }
    }
    every!(all!(verify, &h));
    see(&mut h);
    // and again under the same id
    let i = h.w.create_entity().into_id().get();
    let i = fork(i);
    check(i <= NE && !h.ex[i], code::CREATE_LIVING);
    h.ex[i] = true;
    h.n = h.n.max(i);
    attach::<T23>(&mut h, i);
    attach::<T0>(&mut h, i);
    every!(all!(verify, &h));
    see(&mut h);
    cover(1);
    drop(h);
    check(heap_live() == live, code::HEAP);
}

fn res_put<X: Ty>(h: &mut W) {
    let (s, v) = (h.next, v32());
    h.next += 1;
    h.s[X::I][0] = s;
    h.v[X::I][0] = v;
    h.w.register_resource(X::mk(s, v));
}
fn res_write<X: Ty>(h: &mut W) {
    let (s, v) = (h.next, v32());
    h.next += 1;
    let had = h.s[X::I][0] != 0;
    let g = h.w.resource_write::<X>();
    check(g.is_some() == had, code::READ_PRESENCE);
    if let Some(mut g) = g {
        check(g.get() == (h.s[X::I][0], h.v[X::I][0]), code::READ_VALUE);
        *g = X::mk(s, v);
        h.s[X::I][0] = s;
        h.v[X::I][0] = v;
    }
}
fn res_read<X: Ty>(h: &W) {
    let g = h.w.resource_read::<X>();
    check(g.is_some() == (h.s[X::I][0] != 0), code::READ_PRESENCE);
    if let Some(g) = g {
        check(g.get().0 == h.s[X::I][0], code::READ_SERIAL);
        check(g.get().1 == h.v[X::I][0], code::READ_VALUE);
    }
}
/// up to 24 resource types, `k` of any of them registered again or written
#[no_mangle]
pub extern "C-unwind" fn h_many_res(k: u64, _b: u64, _c: u64, _d: u64) {
    let live = heap_live();
    let mut h = W { w: World::new(), ex: [false; NE + 2], s: [[0; NE + 2]; K], v: [[0; NE + 2]; K], next: 1, n: 0, g: [false; 40] };
    let (n, step) = (K - pick(3) * 11, [1, 5, 7][pick(3)]);
    for i in 0..n {
        let t = i * step % K;
        every!(one!(t, res_put, &mut h));
    }
    every!(all!(res_read, &h));
    for _ in 0..k {
        let t = pick(K);
        if pick(2) == 0 {
            every!(one!(t, res_put, &mut h));
        } else {
            every!(one!(t, res_write, &mut h));
        }
    }
    every!(all!(res_read, &h));
    cover(1);
    drop(h);
    check(heap_live() == live, code::HEAP);
}
