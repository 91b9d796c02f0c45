//! C03: components as a map from (entity, type) to the last value.
pub use crate::soak::h_soak;
pub use crate::many::h_many;
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;

/// one operation on (entity, type X) by a symbolic route
fn route<X: Comp>(s: &mut S, e: usize) {
    match pick(9) {
        0 => s.att::<X>(e),
        1 => s.att_h::<X>(e),
        2 => s.det::<X>(e),
        3 => s.det_h::<X>(e),
        4 => s.wr::<X>(e),
        5 => {
            // write through the handle
            let h = s.w.entity(eid(e));
            check(h.is_some(), code::EXIST);
            if let Some(h) = h {
                let x = h.component_write::<X>();
                check(x.is_some() == s.m.has(X::K, e), code::READ_PRESENCE);
                if let Some(mut x) = x {
                    let sr = if X::IDENT { s.m.serial(X::K) } else { 1 };
                    let v = X::fresh();
                    x.set(sr, v);
                    s.m.s[X::K][e] = sr;
                    s.m.v[X::K][e] = v;
                    check(x.v() == v, code::READ_VALUE);
                }
            }
        }
        6 => {
            let h = s.w.entity(eid(e));
            check(h.is_some(), code::EXIST);
            if let Some(h) = h {
                let x = h.component_read::<X>();
                check(x.is_some() == s.m.has(X::K, e), code::READ_PRESENCE);
                if let Some(x) = x {
                    check(!X::IDENT || x.s() == s.m.s[X::K][e], code::READ_SERIAL);
                    check(x.v() == s.m.v[X::K][e], code::READ_VALUE);
                }
            }
        }
        7 => {
            let r = s.w.components_write::<X>();
            if let Some(mut g) = r {
                let x = g.get_mut(eid(e));
                check(x.is_some() == s.m.has(X::K, e), code::READ_PRESENCE);
                if let Some(x) = x {
                    let sr = if X::IDENT { s.m.serial(X::K) } else { 1 };
                    let v = X::fresh();
                    x.set(sr, v);
                    s.m.s[X::K][e] = sr;
                    s.m.v[X::K][e] = v;
                }
            }
        }
        _ => observe::<&mut X>(&s.w, &mut s.m, IDS | WRITE),
    }
}

/// `n` entities, `k` arbitrary operations of the first `types` types, from nothing
#[no_mangle]
pub extern "C-unwind" fn h_c03_ops(n: u64, k: u64, types: u64, _d: u64) {
    let mut s = S::new();
    s.regs(types as usize);
    s.creates(n as usize);
    s.ops(types as usize, k);
    s.verify();
}

fn routes<X: Comp, Y: Comp>(n: u64, k: u64) {
    let mut s = S::new();
    s.reg::<X>();
    s.reg::<Y>();
    s.creates(n as usize);
    // an arbitrary arrangement of X, a fixed one of Y
    let mut left = [1, 2, 3, 4, 5, 6];
    let mut c = n as usize;
    while c > 0 {
        let i = pick(c + 1);
        if i == c {
            break;
        }
        s.att::<X>(left[i]);
        left[i] = left[c - 1];
        c -= 1;
    }
    s.att::<Y>(2);
    s.att::<Y>(1);
    for _ in 0..k {
        let e = s.m.any_living();
        route::<X>(&mut s, e);
    }
    s.verify();
}
/// every arrangement of a storage, then `k` operations by every route; `d` chooses the types
#[no_mangle]
pub extern "C-unwind" fn h_c03_routes(n: u64, k: u64, _c: u64, d: u64) {
    match d {
        0 => routes::<A, B>(n, k),
        1 => routes::<E, A>(n, k),
        2 => routes::<Z, B>(n, k),
        3 => routes::<F, C>(n, k),
        5 => routes::<G, L>(n, k),
        6 => routes::<L, G>(n, k),
        7 => routes::<H, A>(n, k),
        _ => routes::<C, E>(n, k),
    }
}

/// many entities, attached in one of several orders; two arbitrary operations
#[no_mangle]
pub extern "C-unwind" fn h_c03_wide(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let n = n as usize;
    s.creates(n);
    let order = pick(4);
    for i in 0..n {
        let e = match order {
            0 => 1 + i,
            1 => n - i,
            2 => 1 + (i * 7) % n,
            _ => n / 2 + 1 + i / 2,
        };
        if e <= n && !s.m.has(0, e) {
            s.att::<A>(e);
        }
        if i % 3 == 0 && e <= n {
            s.att::<B>(e);
        }
    }
    let e = s.m.any_living();
    match pick(4) {
        0 => s.det::<A>(e),
        1 => s.att::<B>(e),
        2 => s.remove(e),
        _ => s.att::<C>(e),
    }
    let f = if s.m.ex[1 + n / 3] { 1 + n / 3 } else { n };
    s.det::<A>(f);
    s.att::<A>(f);
    if s.m.ex[1] {
        s.det::<B>(1);
    }
    s.verify();
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c03_far(n: u64, mode: u64, k: u64, _d: u64) {
    let mut s = S::new();
    let ids = s.far_world(n as usize, mode as usize, k, 0);
    s.verify();
    if s.m.ex[ids[1]] {
        s.wr::<A>(ids[1]);
        s.det::<A>(ids[1]);
        s.att::<C>(ids[1]);
        s.att::<A>(ids[1]);
    }
    let e = s.create();
    s.att::<A>(e);
    if s.m.ex[ids[0]] {
        s.det::<A>(ids[0]);
    }
    s.verify();
}
