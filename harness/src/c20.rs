//! C20: registration and existence are checked as documented.
use crate::m::*;
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;

const REGISTERED: u64 = 230;
const GUARD: u64 = 231;

/// a use of type X on an arbitrary id; whether it must panic is the model's word
fn using<X: Comp>(s: &mut S, what: usize) {
    let reg = s.m.reg[X::K];
    check(s.w.has_registered::<X>() == reg, REGISTERED);
    match what {
        0 => {
            if reg {
                must_panic(|| {
                    s.w.register::<X>();
                });
            } else {
                must_not_panic(|| {
                    s.w.register::<X>();
                });
                s.m.reg[X::K] = true;
            }
            check(s.w.has_registered::<X>(), REGISTERED);
        }
        1 => {
            // attach to any id
            let id = any_id();
            let mut ex = false;
            for e in s.m.ids() {
                ex |= (id.get() == e) & s.m.ex[e];
            }
            let sr = s.m.serial(X::K);
            let v = X::fresh();
            let r = attempt(|| s.w.attach_component(id, X::mk(sr, v)));
            check(r.is_some() == (ex & reg), code::PANIC_MISSING);
            if r.is_some() {
                let e = fork(id.get());
                s.m.s[X::K][e] = sr;
                s.m.v[X::K][e] = v;
                cover(26);
            } else {
                cover(27);
            }
        }
        2 => {
            let id = any_id();
            let mut ex = false;
            for e in s.m.ids() {
                ex |= (id.get() == e) & s.m.ex[e];
            }
            let r = attempt(|| s.w.detach_component::<X>(id));
            check(r.is_some() == (ex & reg), code::PANIC_MISSING);
            if let Some(x) = r {
                let e = fork(id.get());
                s.det_check(e, x);
            }
        }
        3 => {
            // a batch, also of no entity
            let n = pick(3);
            let first = s.m.n + 1;
            let mut xs: Vec<X> = Vec::with_capacity(2);
            let (mut sr, mut v) = ([0; 2], [0; 2]);
            for i in 0..n {
                sr[i] = s.m.serial(X::K);
                v[i] = X::fresh();
                xs.push(X::mk(sr[i], v[i]));
            }
            let r = attempt(|| {
                s.w.create_entities(n).attach::<X, _>(xs);
            });
            check(r.is_some() == reg, code::PANIC_MISSING);
            for i in 0..n {
                s.m.ex[first + i] = true;
                if r.is_some() {
                    s.m.s[X::K][first + i] = sr[i];
                    s.m.v[X::K][first + i] = v[i];
                }
            }
            s.m.n += n;
        }
        4 => {
            let c = s.m.count(X::K);
            let r = attempt(|| s.w.query::<&X>().count());
            check(r.is_some() == reg, code::PANIC_MISSING);
            check(r.map_or(true, |r| r == c), code::COUNT);
            let r = attempt(|| s.w.query::<&mut X>().count());
            check(r.is_some() == reg, code::PANIC_MISSING);
            check(r.map_or(true, |r| r == c), code::COUNT);
        }
        5 => {
            check(s.w.components_read::<X>().is_some() == reg, GUARD);
            check(s.w.components_write::<X>().is_some() == reg, GUARD);
            let id = any_id();
            let mut has = false;
            for e in s.m.ids() {
                has |= (id.get() == e) & s.m.has(X::K, e);
            }
            check(s.w.entity_component_read::<X>(id).is_some() == has, GUARD);
            let id = any_id();
            let mut has = false;
            for e in s.m.ids() {
                has |= (id.get() == e) & s.m.has(X::K, e);
            }
            check(s.w.entity_component_write::<X>(id).is_some() == has, GUARD);
        }
        6 => {
            // through a handle
            for e in s.m.ids() {
                let h = s.w.entity(eid(e));
                check(h.is_some() == s.m.ex[e], code::EXIST);
                if let Some(h) = h {
                    check(h.component_read::<X>().is_some() == s.m.has(X::K, e), GUARD);
                    check(h.component_write::<X>().is_some() == s.m.has(X::K, e), GUARD);
                }
            }
            if s.m.n > 0 && s.m.ex[1] {
                let sr = s.m.serial(X::K);
                let v = X::fresh();
                let r = attempt(|| {
                    if let Some(h) = s.w.entity(eid(1)) {
                        h.attach(X::mk(sr, v));
                    }
                });
                check(r.is_some() == reg, code::PANIC_MISSING);
                if r.is_some() {
                    s.m.s[X::K][1] = sr;
                    s.m.v[X::K][1] = v;
                }
            }
        }
        7 => {
            if s.m.n > 0 && s.m.ex[1] {
                let r = attempt(|| s.w.entity(eid(1)).and_then(|h| h.detach::<X>()));
                check(r.is_some() == reg, code::PANIC_MISSING);
                if let Some(x) = r {
                    s.det_check(1, x);
                }
            }
        }
        8 => {
            // any id removed
            let id = any_id();
            let mut ex = false;
            for e in s.m.ids() {
                ex |= (id.get() == e) & s.m.ex[e];
            }
            let r = attempt(|| s.w.remove_entity(id));
            check(r.is_some() == ex, code::PANIC_MISSING);
            if r.is_some() {
                let e = fork(id.get());
                s.m.gone(e);
                cover(28);
            }
        }
        _ => {
            let r = attempt(|| s.w.query::<(&X, Without<&A>)>().count());
            check(r.is_some() == (reg & s.m.reg[0]), code::PANIC_MISSING);
            let r = attempt(|| s.w.query::<(Without<&X>, &A)>().count());
            check(r.is_some() == (reg & s.m.reg[0]), code::PANIC_MISSING);
            let r = attempt(|| s.w.query::<(&A, &X)>().count());
            check(r.is_some() == (reg & s.m.reg[0]), code::PANIC_MISSING);
            let r = attempt(|| s.w.query::<NonOwning<&X, &B>>().count());
            check(r.is_none(), code::PANIC_MISSING);
            let r = attempt(|| s.w.query::<FullOwning<&B, &mut X>>().count());
            check(r.is_none(), code::PANIC_MISSING);
            let r = attempt(|| s.w.query::<PartialOwning<&mut X, &mut B>>().count());
            check(r.is_none(), code::PANIC_MISSING);
        }
    }
}

/// `k` arbitrary uses of two types, each registered or not, on arbitrary ids
#[no_mangle]
pub extern "C-unwind" fn h_c20(n: u64, k: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.creates(n as usize);
    for _ in 0..k {
        let what = pick(10);
        if pick(2) == 0 {
            using::<A>(&mut s, what);
        } else {
            using::<C>(&mut s, what);
        }
    }
    s.verify();
}
/// once more with everything registered along the way, all uses in a row
#[no_mangle]
pub extern "C-unwind" fn h_c20_late(k: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.creates(2);
    // refused, then registered, then it all works
    let what = 1 + pick(9);
    using::<A>(&mut s, what);
    using::<A>(&mut s, 0);
    for _ in 0..k {
        let what = 1 + pick(9);
        using::<A>(&mut s, what);
    }
    using::<E>(&mut s, 4);
    using::<E>(&mut s, 0);
    let e = s.create();
    s.att::<E>(e);
    s.verify();
}
