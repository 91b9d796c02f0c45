//! C15: resources.
pub use crate::many::h_many_res;
use crate::m::*;
use crate::xs::*;
use xecs::*;

const RES_PRESENCE: u64 = 220;
const RES_VALUE: u64 = 221;
const RES_SHOW: u64 = 222;

struct R {
    w: World,
    /// serial (0: not registered) and payload of the resource of each type
    s: [u32; T],
    v: [u32; T],
    m: M,
}
impl R {
    fn put<X: Comp>(&mut self) -> X {
        let s = self.m.serial(X::K);
        let v = X::fresh();
        self.s[X::K] = s;
        self.v[X::K] = v;
        X::mk(s, v)
    }
    fn register<X: Comp>(&mut self) {
        let x = self.put::<X>();
        self.w.register_resource(x);
    }
    fn write<X: Comp>(&mut self) {
        let had = self.s[X::K] != 0;
        let sr = self.m.serial(X::K);
        let v = X::fresh();
        let (s, old) = (&mut self.s, &mut self.v);
        let g = self.w.resource_write::<X>();
        check(g.is_some() == had, RES_PRESENCE);
        if let Some(mut g) = g {
            check(!X::IDENT || g.s() == s[X::K], RES_VALUE);
            check(g.v() == old[X::K], RES_VALUE);
            g.set(sr, v);
            s[X::K] = sr;
            old[X::K] = v;
            check(g.v() == v, RES_VALUE);
        }
    }
    fn read<X: Comp>(&self) {
        let g = self.w.resource_read::<X>();
        check(g.is_some() == (self.s[X::K] != 0), RES_PRESENCE);
        if let Some(g) = g {
            check(!X::IDENT || g.s() == self.s[X::K], RES_VALUE);
            check(g.v() == self.v[X::K], RES_VALUE);
            log(X::K as u64, g.v() as u64);
            cover(25);
        }
    }
    fn reads(&self) {
        self.read::<A>();
        self.read::<B>();
        self.read::<C>();
        self.read::<E>();
        self.read::<Z>();
        self.read::<F>();
    }
}
/// `k` arbitrary registrations and writes of resources, and uses of components of the same types
#[no_mangle]
pub extern "C-unwind" fn h_c15(k: u64, comps: u64, _c: u64, _d: u64) {
    let mut r = R { w: World::new(), s: [0; T], v: [0; T], m: M::new() };
    let mut comp = 0;
    let mut cs = (0, 0);
    let mut id = None;
    for _ in 0..k {
        match pick(if comps != 0 { 13 } else { 10 }) {
            0 => r.register::<A>(),
            1 => r.write::<A>(),
            2 => r.register::<E>(),
            3 => r.write::<E>(),
            4 => r.register::<B>(),
            5 => r.write::<B>(),
            6 => r.register::<Z>(),
            7 => r.write::<Z>(),
            8 => r.register::<F>(),
            9 => r.write::<F>(),
            10 => {
                if comp == 0 {
                    r.w.register::<A>();
                    id = Some(r.w.create_entity().into_id());
                    comp = 1;
                }
            }
            11 => {
                if let Some(id) = id {
                    let v = v32();
                    cs = (100, v);
                    r.w.attach_component(id, A::mk(100, v));
                }
            }
            _ => {
                if let Some(id) = id {
                    let x = r.w.detach_component::<A>(id);
                    check(x.is_some() == (cs.0 != 0), code::DETACH_PRESENCE);
                    if let Some(x) = x {
                        check(x.v() == cs.1, code::DETACH_VALUE);
                    }
                    cs = (0, 0);
                }
            }
        }
        check(r.w.has_registered::<A>() == (comp != 0), RES_PRESENCE);
    }
    r.reads();
    if let Some(id) = id {
        let x = r.w.entity_component_read::<A>(id);
        check(x.is_some() == (cs.0 != 0), code::READ_PRESENCE);
        if let Some(x) = x {
            check(x.v() == cs.1, code::READ_VALUE);
        }
        // all of the entity's components gone, the resources stay
        r.w.remove_entity(id);
        r.reads();
    } else {
        check(r.w.components_read::<A>().is_none(), RES_PRESENCE);
    }
    cover(1);
}
/// a dozen resource types at once, several alive guards
#[no_mangle]
pub extern "C-unwind" fn h_c15_many(_a: u64, _b: u64, _c: u64, _d: u64) {
    let mut r = R { w: World::new(), s: [0; T], v: [0; T], m: M::new() };
    let order = pick(3);
    for i in 0..6 {
        match (i * [1, 5, 1][order] + order * 2) % 6 {
            0 => r.register::<A>(),
            1 => r.register::<B>(),
            2 => r.register::<C>(),
            3 => r.register::<E>(),
            4 => r.register::<Z>(),
            _ => r.register::<F>(),
        }
    }
    r.w.register_resource(v64());
    r.w.register_resource((v32(), v8()));
    let x = v64();
    r.w.register_resource(x);
    {
        // guards of different types at the same time; shared ones of the same type too
        let a = r.w.resource_read::<A>();
        let a2 = r.w.resource_read::<A>();
        let mut b = r.w.resource_write::<B>();
        let u = r.w.resource_read::<u64>();
        check(a.is_some() & a2.is_some() & b.is_some() & u.is_some(), RES_PRESENCE);
        if let (Some(a), Some(a2), Some(b), Some(u)) = (a, a2, b.as_mut(), u) {
            check(a.v() == r.v[A::K], RES_VALUE);
            check(*u == x, RES_VALUE);
            let v = B::fresh();
            b.set(77, v);
            r.s[B::K] = 77;
            r.v[B::K] = v;
            check(a2.v() == r.v[A::K], RES_VALUE);
        }
    }
    r.reads();
    // replace one
    match pick(3) {
        0 => r.register::<A>(),
        1 => r.register::<E>(),
        _ => r.write::<C>(),
    }
    r.reads();
    check(r.w.resource_read::<u8>().is_none(), RES_PRESENCE);
    check(r.w.resource_write::<i64>().is_none(), RES_PRESENCE);
    cover(1);
}

/// values of types of every size, as users register them
trait Plain: Resource + Clone {
    fn any() -> Self;
    fn eq(&self, o: &Self) -> bool;
}
macro_rules! plain {
    ($($t:ty: $e:expr);*) => { $(impl Plain for $t {
        fn any() -> Self { $e }
        fn eq(&self, o: &Self) -> bool { self == o }
    })* };
}
plain!(u8: v8(); bool: v8() & 1 == 1; i8: v8() as i8; u16: sym(16, 0, 65535) as u16; u32: v32(); i64: v64() as i64;
    u128: v64() as u128 * 3; (): (); char: (b'a' + (v8() & 7)) as char; usize: v64() as usize;
    [u8; 3]: [v8(), v8(), v8()]; [u64; 30]: [v64(); 30]; Option<u8>: Some(v8()); Vec<u32>: vec![v32(), v32()];
    Box<u64>: Box::new(v64()); &'static str: ["a", "bc"][pick(2)]);

struct P<X: Plain> {
    cur: Option<X>,
}
impl<X: Plain> P<X> {
    fn step(&mut self, w: &mut World, k: usize) {
        let had = self.cur.is_some();
        match k {
            0 => {
                let x = X::any();
                self.cur = Some(x.clone());
                w.register_resource(x);
            }
            1 => {
                let g = w.resource_write::<X>();
                check(g.is_some() == had, RES_PRESENCE);
                if let (Some(mut g), Some(c)) = (g, self.cur.as_mut()) {
                    check(g.eq(c), RES_VALUE);
                    let x = X::any();
                    *c = x.clone();
                    *g = x;
                }
            }
            _ => {
                let g = w.resource_read::<X>();
                check(g.is_some() == had, RES_PRESENCE);
                if let (Some(g), Some(c)) = (g, self.cur.as_ref()) {
                    check(g.eq(c), RES_VALUE);
                    cover(25);
                }
            }
        }
    }
}
fn two<X: Plain, Y: Plain>(k: u64) {
    let mut w = World::new();
    let (mut x, mut y) = (P::<X> { cur: None }, P::<Y> { cur: None });
    for _ in 0..k {
        match pick(4) {
            0 => x.step(&mut w, 0),
            1 => x.step(&mut w, 1),
            2 => y.step(&mut w, 0),
            _ => y.step(&mut w, 1),
        }
        x.step(&mut w, 2);
        y.step(&mut w, 2);
    }
    cover(1);
}
/// every history of `k` registrations and writes of two resource types
#[no_mangle]
pub extern "C-unwind" fn h_c15_plain(k: u64, _b: u64, _c: u64, _d: u64) {
    match pick(9) {
        0 => two::<u8, i8>(k),
        1 => two::<bool, ()>(k),
        2 => two::<u16, u32>(k),
        3 => two::<i64, u128>(k),
        4 => two::<char, usize>(k),
        5 => two::<[u8; 3], [u64; 30]>(k),
        6 => two::<Option<u8>, Vec<u32>>(k),
        7 => two::<Box<u64>, u32>(k),
        _ => two::<&'static str, u8>(k),
    }
}

/// a resource that notes what it is asked to show
struct Shown<const I: usize> {
    pad: [u64; I],
    s: u64,
    v: u32,
}
static mut SEEN: (u64, u32, u64) = (0, 0, 0);
fn seen() -> (u64, u32, u64) {
    unsafe {
        let r = SEEN;
        SEEN = (0, 0, 0);
        r
    }
}
impl<const I: usize> std::fmt::Display for Shown<I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { SEEN = (self.s, self.v, 1) }
        for _ in 0..self.s {
            f.write_str("d")?;
        }
        f.write_str(";")
    }
}
impl<const I: usize> std::fmt::Debug for Shown<I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { SEEN = (self.s, self.v, 2) }
        f.write_str("#")
    }
}
#[derive(Default)]
struct Sink {
    n: usize,
    d: usize,
    hash: usize,
    full: bool,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        if self.full {
            return Err(std::fmt::Error);
        }
        for c in x.bytes() {
            self.n += 1;
            self.d += (c == b'd') as usize;
            self.hash += (c == b'#') as usize;
        }
        Ok(())
    }
}
/// the guards show the resource they guard, whatever was registered or written before
#[no_mangle]
pub extern "C-unwind" fn h_c15_show(k: u64, _b: u64, _c: u64, _d: u64) {
    use std::fmt::Write;
    let mut w = World::new();
    let mut cur: [(u64, u32); 2] = [(0, 0); 2];
    let mut sr = 0;
    fn reg<const I: usize>(w: &mut World, s: u64, v: u32) {
        w.register_resource(Shown::<I> { pad: [s; I], s, v })
    }
    for _ in 0..k {
        let v = v32();
        sr += 1;
        match pick(4) {
            0 => {
                reg::<0>(&mut w, sr, v);
                cur[0] = (sr, v);
            }
            1 => {
                reg::<9>(&mut w, sr, v);
                cur[1] = (sr, v);
            }
            2 => {
                if let Some(mut g) = w.resource_write::<Shown<0>>() {
                    *g = Shown { pad: [], s: sr, v };
                    cur[0] = (sr, v);
                }
            }
            _ => {
                if let Some(mut g) = w.resource_write::<Shown<9>>() {
                    g.s = sr;
                    g.v = v;
                    cur[1] = (sr, v);
                    check(g.pad[8] != 0, RES_VALUE);
                }
            }
        }
    }
    fn shows<G: std::fmt::Display + std::fmt::Debug>(g: &G, cur: (u64, u32)) {
        seen();
        let mut o = Sink::default();
        check(write!(o, "{}", g).is_ok(), RES_SHOW);
        check(seen() == (cur.0, cur.1, 1), RES_SHOW);
        check((o.d == cur.0 as usize) & (o.n == cur.0 as usize + 1), RES_SHOW);
        let mut o = Sink::default();
        check(write!(o, "{:?}", g).is_ok(), RES_SHOW);
        check(seen() == (cur.0, cur.1, 2), RES_SHOW);
        check(o.hash == 1, RES_SHOW);
        let mut o = Sink::default();
        check(write!(o, "{:#?}", g).is_ok(), RES_SHOW);
        check(seen() == (cur.0, cur.1, 2), RES_SHOW);
        // an error of the sink is passed on
        let mut o = Sink { full: true, ..Sink::default() };
        check(write!(o, "{}", g).is_err(), RES_SHOW);
        log(cur.0, cur.1 as u64);
        cover(29);
    }
    fn both<const I: usize>(w: &World, cur: (u64, u32)) {
        {
            let g = w.resource_read::<Shown<I>>();
            check(g.is_some() == (cur.0 != 0), RES_PRESENCE);
            if let Some(g) = g {
                shows(&g, cur);
            }
        }
        let g = w.resource_write::<Shown<I>>();
        check(g.is_some() == (cur.0 != 0), RES_PRESENCE);
        if let Some(g) = g {
            shows(&g, cur);
        }
    }
    both::<0>(&w, cur[0]);
    both::<9>(&w, cur[1]);
    cover(1);
}
