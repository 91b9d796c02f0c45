//! C04: all views of one component storage describe the same set.
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;

/// everything a guard of X says about an arbitrary id and as a whole
macro_rules! view {
    ($s:expr, $x:ty, $g:expr) => {{
        let total = $s.m.count(<$x>::K);
        check($g.count() == total, code::COUNT);
        check($g.is_empty() == (total == 0), code::COUNT);
        check($g.data().len() == total, code::COUNT);
        let id = some_id(&$s.m);
        let mut exp = false;
        for e in $s.m.ids() {
            exp |= (un(id) == e) & $s.m.has(<$x>::K, e);
        }
        check($g.exist(id) == exp, code::READ_PRESENCE);
        let id = some_id(&$s.m);
        let mut exp = false;
        for e in $s.m.ids() {
            exp |= (un(id) == e) & $s.m.has(<$x>::K, e);
        }
        match $g.get(id) {
            Some(x) => {
                check(exp, code::READ_PRESENCE);
                let mut own = false;
                let mut val = false;
                for e in $s.m.ids() {
                    let me = un(id) == e;
                    own |= me & (!<$x>::IDENT || x.s() == $s.m.s[<$x>::K][e]);
                    val |= me & (x.v() == $s.m.v[<$x>::K][e]);
                }
                check(own, code::READ_SERIAL);
                check(val, code::READ_VALUE);
                cover(2);
            }
            None => check(!exp, code::READ_PRESENCE),
        }
        // the slice: each owner once
        if <$x>::IDENT {
            let mut seen = [false; N + 2];
            for x in $g.data() {
                let e = $s.m.owner(<$x>::K, x.s());
                check(e != 0, code::ITEM_NO_ENTITY);
                check(!seen[e], code::ITEM_TWICE);
                seen[e] = true;
                check(x.v() == $s.m.v[<$x>::K][e], code::ITEM_VALUE);
            }
        }
        // small ids one by one
        for e in $s.m.ids1() {
            let h = $s.m.has(<$x>::K, e);
            check($g.exist(eid(e)) == h, code::READ_PRESENCE);
            let r = $g.get(eid(e));
            check(r.is_some() == h, code::READ_PRESENCE);
            if let Some(x) = r {
                check(!<$x>::IDENT || x.s() == $s.m.s[<$x>::K][e], code::READ_SERIAL);
                check(x.v() == $s.m.v[<$x>::K][e], code::READ_VALUE);
                let u = unsafe { $g.get_unchecked(eid(e)) };
                check(!<$x>::IDENT || u.s() == $s.m.s[<$x>::K][e], code::READ_SERIAL);
                check(u.v() == $s.m.v[<$x>::K][e], code::READ_VALUE);
            }
        }
    }};
}

/// the same without arbitrary ids
macro_rules! few {
    ($s:expr, $x:ty, $g:expr) => {{
        let total = $s.m.count(<$x>::K);
        check($g.count() == total, code::COUNT);
        check($g.is_empty() == (total == 0), code::COUNT);
        check($g.data().len() == total, code::COUNT);
        for e in $s.m.ids1() {
            let h = $s.m.has(<$x>::K, e);
            check($g.exist(eid(e)) == h, code::READ_PRESENCE);
            let r = $g.get(eid(e));
            check(r.is_some() == h, code::READ_PRESENCE);
            if let Some(x) = r {
                check(x.s() == $s.m.s[<$x>::K][e], code::READ_SERIAL);
                check(x.v() == $s.m.v[<$x>::K][e], code::READ_VALUE);
            }
        }
        for x in $g.data() {
            let e = $s.m.owner(<$x>::K, x.s());
            check(e != 0, code::ITEM_NO_ENTITY);
            check(x.v() == $s.m.v[<$x>::K][e], code::ITEM_VALUE);
        }
    }};
}

fn views<X: Comp>(s: &mut S) {
    {
        let g = s.w.components_read::<X>();
        check(g.is_some(), code::READ_PRESENCE);
        if let Some(g) = g {
            view!(s, X, g);
        }
    }
    s.verify_t::<X>();
    // write through the write guard, by one of its ways
    {
        let g = s.w.components_write::<X>();
        check(g.is_some(), code::READ_PRESENCE);
        if let Some(mut g) = g {
            match pick(4) {
                0 => {
                    for x in g.data_mut() {
                        let v = X::fresh();
                        let e = s.m.owner(X::K, x.s());
                        if X::IDENT {
                            check(e != 0, code::ITEM_NO_ENTITY);
                            x.set(x.s(), v);
                            s.m.v[X::K][e] = v;
                        }
                    }
                }
                1 => {
                    let id = any_id();
                    let r = g.get_mut(id);
                    let mut exp = false;
                    for e in s.m.ids() {
                        exp |= (un(id) == e) & s.m.has(X::K, e);
                    }
                    check(r.is_some() == exp, code::READ_PRESENCE);
                    if let Some(x) = r {
                        let e = fork(un(id));
                        check(!X::IDENT || x.s() == s.m.s[X::K][e], code::READ_SERIAL);
                        let v = X::fresh();
                        let sr = if X::IDENT { s.m.serial(X::K) } else { 1 };
                        x.set(sr, v);
                        s.m.s[X::K][e] = sr;
                        s.m.v[X::K][e] = v;
                        cover(3);
                    }
                }
                2 => {
                    for e in s.m.ids() {
                        if s.m.has(X::K, e) {
                            let x = unsafe { g.get_unchecked_mut(eid(e)) };
                            check(!X::IDENT || x.s() == s.m.s[X::K][e], code::READ_SERIAL);
                            let v = X::fresh();
                            let sr = if X::IDENT { s.m.serial(X::K) } else { 1 };
                            x.set(sr, v);
                            s.m.s[X::K][e] = sr;
                            s.m.v[X::K][e] = v;
                        }
                    }
                }
                _ => view!(s, X, g),
            }
            view!(s, X, g);
        }
    }
    s.verify();
    observe::<&X>(&s.w, &mut s.m, IDS);
    for e in s.m.ids() {
        if s.m.ex[e] {
            let h = s.w.entity(eid(e));
            if let Some(h) = h {
                let r = h.component_read::<X>();
                check(r.is_some() == s.m.has(X::K, e), code::READ_PRESENCE);
                if let Some(x) = r {
                    check(x.v() == s.m.v[X::K][e], code::READ_VALUE);
                }
            }
        }
    }
}

fn arrangement<X: Comp>(s: &mut S, n: usize) {
    let mut left = [1, 2, 3, 4, 5, 6, 7, 8];
    let mut c = n;
    while c > 0 {
        let i = pick(c + 1);
        if i == c {
            break;
        }
        s.att::<X>(left[i]);
        left[i] = left[c - 1];
        c -= 1;
    }
}
fn ops1<X: Comp>(s: &mut S, k: u64) {
    for _ in 0..k {
        let l = s.m.living();
        let c = pick(3 * l + 1);
        if c == 3 * l {
            s.create();
        } else {
            let e = s.m.nth(c % l);
            match c / l {
                0 => s.att::<X>(e),
                1 => s.det::<X>(e),
                _ => s.remove(e),
            }
        }
    }
}

fn run<X: Comp>(n: u64, k: u64) {
    let mut s = S::new();
    s.reg::<X>();
    s.creates(n as usize);
    arrangement::<X>(&mut s, n as usize);
    ops1::<X>(&mut s, k);
    views::<X>(&mut s);
}
/// every arrangement of the storage, `k` more operations, every view; `d` chooses the type
#[no_mangle]
pub extern "C-unwind" fn h_c04(n: u64, k: u64, _c: u64, d: u64) {
    match d {
        0 => run::<A>(n, k),
        1 => run::<E>(n, k),
        2 => run::<Z>(n, k),
        3 => run::<F>(n, k),
        4 => run::<G>(n, k),
        5 => run::<L>(n, k),
        _ => run::<C>(n, k),
    }
}

/// the storage belongs to groups, which rearrange it: `c` chooses the groups
#[no_mangle]
pub extern "C-unwind" fn h_c04_group(n: u64, k: u64, g: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    s.creates(n as usize);
    s.populate(0, n as usize);
    s.subset(1, n as usize);
    s.group(g as usize);
    s.ops(2, k);
    views::<A>(&mut s);
}

/// many entities; any of them loses its component, two get one
#[no_mangle]
pub extern "C-unwind" fn h_c04_wide(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.reg::<A>();
    let n = n as usize;
    s.creates(n);
    let step = [1, 3, 7, 11][pick(4)];
    for i in 0..n / 2 {
        let e = n - (i * step) % n;
        if !s.m.has(0, e) {
            s.att::<A>(e);
        }
    }
    let e = s.m.any_living();
    s.det::<A>(e);
    let e = s.m.nth(n / 2);
    s.att::<A>(e);
    let g = s.w.components_read::<A>();
    if let Some(g) = g {
        if n > 16 {
            few!(s, A, g);
        } else {
            view!(s, A, g);
        }
    }
    s.verify();
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c04_far(n: u64, mode: u64, k: u64, set: u64) {
    let mut s = S::new();
    let ids = s.far_world(n as usize, mode as usize, k, set as usize);
    {
        let g = s.w.components_read::<A>();
        if let Some(g) = g {
            view!(s, A, g);
        }
    }
    for e in ids {
        {
            let g = s.w.components_write::<A>();
            if let Some(mut g) = g {
                if s.m.has(0, e) {
                    match g.get_mut(eid(e)) {
                        Some(x) => {
                            let v = A::fresh();
                            let sr = s.m.serial(0);
                            x.set(sr, v);
                            s.m.s[0][e] = sr;
                            s.m.v[0][e] = v;
                        }
                        None => fail(code::READ_PRESENCE),
                    }
                }
                few!(s, A, g);
            }
        }
        if s.m.ex[e] {
            s.det::<A>(e);
        }
    }
    s.verify();
    let g = s.w.components_read::<A>();
    if let Some(g) = g {
        few!(s, A, g);
    }
}
