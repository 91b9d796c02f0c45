//! C14: batches.
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;

fn vec_of<X: Comp>(s: &mut S, ids: &std::ops::Range<usize>) -> Vec<X> {
    let mut v = Vec::with_capacity(8);
    for e in ids.clone() {
        v.push(s.put::<X>(e));
    }
    v
}

fn run<X: Comp, Y: Comp>(pre: u64, max: u64, set: usize) {
    let mut s = S::new();
    if set != 0 {
        s.regs(3);
    } else {
        s.reg::<X>();
        s.reg::<Y>();
    }
    groups(&mut s, set);
    // entities that are there before
    for _ in 0..pre {
        let e = s.create();
        if pick(2) == 1 {
            s.att::<X>(e);
        }
        if pick(2) == 1 {
            s.att::<Y>(e);
        }
    }
    if pre > 1 {
        match pick(3) {
            0 => {
                let e = s.m.any_living();
                s.remove(e);
            }
            1 => s.det::<X>(1),
            _ => {}
        }
    }
    let n = pick(max as usize + 1);
    // S is borrowed by the handle: work on the parts
    let S { w, m } = &mut s;
    let mut h = w.create_entities(n);
    // which ids they are: the next n
    let first = {
        let mut f = 1;
        while f <= m.n {
            f += 1;
        }
        f
    };
    let ids = first..first + n;
    for e in ids.clone() {
        check(w.exist(eid(e)), code::CREATE_RANGE);
        check(!m.ex[e], code::CREATE_LIVING);
        m.ex[e] = true;
    }
    m.n = first + n - 1;
    // some have one already, attached in a symbolic order
    let single = |m: &mut M, y: bool| {
        let mut left = [0; 8];
        let mut c = n;
        for i in 0..n {
            left[i] = first + i;
        }
        while c > 0 {
            let i = pick(c + 1);
            if i == c {
                break;
            }
            let e = left[i];
            if y {
                let sr = if Y::IDENT { m.serial(Y::K) } else { 1 };
                let v = Y::fresh();
                m.s[Y::K][e] = sr;
                m.v[Y::K][e] = v;
                w.attach_component(eid(e), Y::mk(sr, v));
            } else {
                let sr = if X::IDENT { m.serial(X::K) } else { 1 };
                let v = X::fresh();
                m.s[X::K][e] = sr;
                m.v[X::K][e] = v;
                w.attach_component(eid(e), X::mk(sr, v));
            }
            left[i] = left[c - 1];
            c -= 1;
        }
    };
    fn fill<X: Comp>(m: &mut M, ids: &std::ops::Range<usize>) -> Vec<X> {
        let mut v = Vec::with_capacity(8);
        for e in ids.clone() {
            let sr = if X::IDENT { m.serial(X::K) } else { 1 };
            let val = X::fresh();
            m.s[X::K][e] = sr;
            m.v[X::K][e] = val;
            v.push(X::mk(sr, val));
        }
        v
    }
    match pick(4) {
        0 => {
            single(m, false);
            h = h.attach::<X, _>(fill::<X>(m, &ids));
            h = h.attach::<Y, _>(fill::<Y>(m, &ids));
        }
        1 => {
            single(m, true);
            h = h.attach::<X, _>(fill::<X>(m, &ids));
        }
        2 => {
            h = h.attach::<X, _>(fill::<X>(m, &ids));
            single(m, true);
            h = h.attach::<Y, _>(fill::<Y>(m, &ids));
        }
        _ => {
            h = h.attach::<Y, _>(fill::<Y>(m, &ids));
            single(m, false);
            h = h.attach::<Y, _>(fill::<Y>(m, &ids));
            h = h.attach::<X, _>(fill::<X>(m, &ids));
            h = h.attach::<X, _>(fill::<X>(m, &ids));
        }
    }
    let r = h.into_ids();
    check(un(r.start) == ids.start, code::CREATE_RANGE);
    check(un(r.end) == ids.end, code::CREATE_RANGE);
    if n > 1 {
        cover(24);
    }
    s.verify();
    see(&mut s, set, IDS);
    observe::<&X>(&s.w, &mut s.m, IDS);
    // and life goes on
    if n > 0 {
        s.det::<X>(first);
        s.remove(first + n - 1);
        s.verify();
        see(&mut s, set, NEXT);
    }
}
/// `pre` entities before, a batch of up to `max`; groups of `set`; `d` chooses the types
#[no_mangle]
pub extern "C-unwind" fn h_c14(pre: u64, max: u64, set: u64, d: u64) {
    match d {
        0 => run::<A, B>(pre, max, set as usize),
        1 => run::<B, A>(pre, max, set as usize),
        2 => run::<E, Z>(pre, max, 0),
        4 => run::<G, L>(pre, max, 0),
        _ => run::<F, C>(pre, max, 0),
    }
}

/// a vector of any other length panics and changes nothing
#[no_mangle]
pub extern "C-unwind" fn h_c14_len(pre: u64, max: u64, set: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let set = set as usize;
    groups(&mut s, set);
    for _ in 0..pre {
        let e = s.create();
        if pick(2) == 1 {
            s.att::<A>(e);
        }
        if pick(2) == 1 {
            s.att::<B>(e);
        }
    }
    let n = pick(max as usize + 1);
    let h = s.w.create_entities(n);
    let first = s.m.n + 1;
    for e in first..first + n {
        check(!s.m.ex[e], code::CREATE_LIVING);
        s.m.ex[e] = true;
    }
    s.m.n += n;
    let h = if pick(2) == 1 {
        let mut v: Vec<B> = Vec::with_capacity(8);
        for e in first..first + n {
            let sr = s.m.serial(B::K);
            let val = B::fresh();
            s.m.s[B::K][e] = sr;
            s.m.v[B::K][e] = val;
            v.push(B::mk(sr, val));
        }
        h.attach::<B, _>(v)
    } else {
        h
    };
    let l = pick(max as usize + 3);
    assume(l != n);
    let mut v: Vec<A> = Vec::with_capacity(8);
    for _ in 0..l {
        v.push(A::mk(200, A::fresh()));
    }
    must_panic(move || {
        h.attach::<A, _>(v);
    });
    s.verify();
    see(&mut s, set, IDS);
    observe::<&A>(&s.w, &mut s.m, IDS);
    if n > 0 {
        s.att::<A>(first);
        s.det::<B>(first);
        s.att::<B>(first);
        s.verify();
        see(&mut s, set, IDS);
    }
}

/// a large batch
#[no_mangle]
pub extern "C-unwind" fn h_c14_wide(n: u64, set: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let (n, set) = (n as usize, set as usize);
    let early = pick(2) == 0;
    if early {
        groups(&mut s, set);
    }
    let pre = pick(4) * 3;
    for i in 0..pre {
        let e = s.create();
        s.att::<A>(e);
        if i % 2 == 0 {
            s.att::<B>(e);
        }
    }
    let first = s.m.n + 1;
    for e in first..first + n {
        s.m.ex[e] = true;
    }
    s.m.n += n;
    let ids = first..first + n;
    let va = vec_of::<A>(&mut s, &ids);
    let h = s.w.create_entities(n).attach::<A, _>(va);
    let r = h.into_ids();
    check((un(r.start) == first) & (un(r.end) == first + n), code::CREATE_RANGE);
    let e = s.m.any_living();
    s.att::<B>(e);
    if !early {
        groups(&mut s, set);
    }
    let e = s.m.nth(s.m.living() / 2);
    s.remove(e);
    s.verify();
    see(&mut s, set, IDS);
}

/// a batch of up to `max` entities behind any number of others
#[no_mangle]
pub extern "C-unwind" fn h_c14_far(pre: u64, max: u64, set: u64, step: u64) {
    let mut s = S::new();
    s.regs(3);
    let (pre, max, set, step) = (pre as usize, max as usize, set as usize, step as usize);
    groups(&mut s, set);
    let pre = step * pick(pre / step + 1);
    if pre > 0 {
        let r = s.w.create_entities(pre).into_ids();
        check((un(r.start) == 1) & (un(r.end) == pre + 1), code::CREATE_RANGE);
        for e in 1..=pre {
            s.m.ex[e] = true;
        }
        s.m.n = pre;
        s.att::<A>(1);
        s.att::<B>(pre);
        s.att::<A>(pre);
    }
    let n = step * pick(max / step + 1);
    let first = pre + 1;
    let ids = first..first + n;
    for e in ids.clone() {
        s.m.ex[e] = true;
    }
    s.m.n = pre + n;
    let va = vec_of::<A>(&mut s, &ids);
    let r = s.w.create_entities(n).attach::<A, _>(va).into_ids();
    check((un(r.start) == first) & (un(r.end) == first + n), code::CREATE_RANGE);
    if n > 0 {
        s.att::<B>(first);
        s.att::<B>(first + n - 1);
        s.det::<A>(first + n / 2);
    }
    s.verify();
    see(&mut s, set, IDS);
    observe::<&A>(&s.w, &mut s.m, IDS);
}
