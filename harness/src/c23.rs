//! C23: no safe use touches invalid memory. The executor checks every access of every harness;
//! these mix everything and check that nothing is leaked and that references stay put.
pub use crate::soak::h_soak;
use crate::m::*;
use crate::xs::*;
use xecs::query::*;

/// types that own memory, are zero-sized or over-aligned; everything a world can do
#[no_mangle]
pub extern "C-unwind" fn h_c23(n: u64, k: u64, set: u64, large: u64) {
    match large {
        0 => mixed::<E>(n, k, set),
        _ => mixed::<H>(n, k, set),
    }
}
fn mixed<X: Comp>(n: u64, k: u64, set: u64) {
    let live = heap_live();
    let mut s = S::new();
    s.regs(5);
    if X::K > 4 {
        s.reg::<X>();
    }
    s.reg::<Z>();
    s.reg::<F>();
    let n = n as usize;
    s.creates(n);
    groups(&mut s, set as usize);
    s.populate(X::K, n);
    s.subset(0, n);
    if n > 0 {
        s.att::<F>(n);
        s.att::<Z>(1);
    }
    for _ in 0..k {
        let l = s.m.living();
        let c = pick(10 * l + 4);
        if c >= 10 * l {
            match c - 10 * l {
                0 => {
                    s.create();
                }
                1 => {
                    let first = s.m.n + 1;
                    let mut v: Vec<X> = Vec::with_capacity(2);
                    for e in first..first + 2 {
                        s.m.ex[e] = true;
                        v.push(s.put::<X>(e));
                    }
                    s.m.n += 2;
                    s.w.create_entities(2).attach::<X, _>(v);
                }
                2 => observe::<(&mut X, &A)>(&s.w, &mut s.m, IDS | WRITE | LOOK),
                _ => observe::<(&X, Without<&B>)>(&s.w, &mut s.m, NEXT | LOOK),
            }
        } else {
            let e = s.m.nth(c % l);
            match c / l {
                0 => s.att::<X>(e),
                1 => s.det::<X>(e),
                2 => s.att::<A>(e),
                3 => s.det::<A>(e),
                4 => s.att::<B>(e),
                5 => s.det::<B>(e),
                6 => s.remove(e),
                7 => s.att::<F>(e),
                8 => s.det::<Z>(e),
                _ => s.wr::<X>(e),
            }
        }
    }
    see(&mut s, set as usize, IDS | LOOK);
    observe::<&mut X>(&s.w, &mut s.m, IDS | WRITE | LOOK);
    observe::<&F>(&s.w, &mut s.m, IDS | LOOK);
    s.verify();
    drop(s);
    check(heap_live() == live, code::HEAP);
}

/// references from guards and queries of one type while everything else changes
#[no_mangle]
pub extern "C-unwind" fn h_c23_refs(n: u64, m: u64, _c: u64, _d: u64) {
    let live = heap_live();
    let mut s = S::new();
    s.regs(5);
    let n = n as usize;
    s.creates(n);
    s.populate(0, n);
    s.att::<E>(1);
    {
        let S { w, m: model } = &mut s;
        let w = &*w;
        let how = pick(4);
        let guard = if how == 0 { w.components_read::<A>() } else { None };
        let slice = guard.as_ref().map(|g| g.data());
        let one = if how == 1 { w.entity_component_read::<A>(eid(1)) } else { None };
        let mut query = if how == 2 { Some(w.query::<&A>()) } else { None };
        let mut items = [None; 8];
        if let Some(q) = &mut query {
            let mut i = 0;
            while let Some((id, x)) = q.next_with_id() {
                items[i] = Some((id, x));
                i += 1;
            }
        }
        let mut wq = if how == 3 { Some(w.query::<&mut A>()) } else { None };
        let first = wq.as_mut().and_then(|q| q.next_with_id());
        // other storages grow, shrink and go through everything
        let mut last = 0;
        for i in 0..m {
            let e = un(w.create_entity().into_id());
            model.ex[e] = true;
            model.n = model.n.max(e);
            let sr = model.serial(E::K);
            let v = E::fresh();
            model.s[E::K][e] = sr;
            model.v[E::K][e] = v;
            w.attach_component(eid(e), E::mk(sr, v));
            if i % 2 == 0 {
                let sr = model.serial(B::K);
                let v = B::fresh();
                model.s[B::K][e] = sr;
                model.v[B::K][e] = v;
                w.attach_component(eid(e), B::mk(sr, v));
            }
            last = e;
        }
        if last != 0 {
            let r = w.detach_component::<E>(eid(last));
            check(r.is_some(), code::DETACH_PRESENCE);
            model.s[E::K][last] = 0;
        }
        // the references show what they showed
        if let Some(d) = slice {
            for x in d {
                let e = model.owner(A::K, x.s());
                check(e != 0, code::ITEM_NO_ENTITY);
                check(x.v() == model.v[A::K][e], code::ITEM_VALUE);
            }
            cover(30);
        }
        if let Some(x) = one {
            check(x.s() == model.s[A::K][1], code::READ_SERIAL);
            check(x.v() == model.v[A::K][1], code::READ_VALUE);
            cover(31);
        }
        for i in 0..8 {
            if let Some((id, x)) = items[i] {
                check(x.s() == model.s[A::K][un(id)], code::ITEM_MIXED);
                check(x.v() == model.v[A::K][un(id)], code::ITEM_VALUE);
                cover(32);
            }
        }
        if let Some((id, x)) = first {
            let e = fork(un(id));
            check(x.s() == model.s[A::K][e], code::ITEM_MIXED);
            let v = A::fresh();
            let sr = model.serial(A::K);
            x.set(sr, v);
            model.s[A::K][e] = sr;
            model.v[A::K][e] = v;
            cover(33);
        }
    }
    s.verify();
    drop(s);
    check(heap_live() == live, code::HEAP);
}

/// guards of arbitrary ids, also of ids never issued, in a world of any shape
#[no_mangle]
pub extern "C-unwind" fn h_c23_ids(n: u64, set: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let n = n as usize;
    s.creates(n);
    s.populate(0, n);
    groups(&mut s, set as usize);
    s.subset(1, n);
    let id = any_id();
    match pick(8) {
        0 => {
            let r = attempt(|| s.w.remove_entity(id));
            check(r.is_some() == (un(id) <= n), code::PANIC_MISSING);
        }
        1 => {
            let r = attempt(|| s.w.detach_component::<A>(id));
            check(r.is_some() == (un(id) <= n), code::PANIC_MISSING);
        }
        2 => {
            let r = attempt(|| s.w.attach_component(id, B::mk(50, B::fresh())));
            check(r.is_some() == (un(id) <= n), code::PANIC_MISSING);
        }
        3 => {
            let mut g = s.w.components_write::<A>().unwrap();
            if let Some(x) = g.get_mut(id) {
                log(1, x.v() as u64);
            }
        }
        4 => {
            if let Some(x) = s.w.entity_component_write::<B>(id) {
                log(1, x.v() as u64);
            }
        }
        5 => {
            let mut q = s.w.query::<(&mut A, &B)>();
            if let Some((x, y)) = q.from_id(id) {
                log(1, x.v() as u64 + y.v() as u64);
            }
        }
        6 => {
            if let Some(h) = s.w.entity(id) {
                log(1, h.component_read::<A>().map_or(7, |x| x.v()) as u64);
            }
        }
        _ => {
            let id2 = any_id();
            check(s.w.exist(id2) == (un(id2) <= n), code::EXIST);
        }
    }
    cover(1);
}

/// many entities through growth and shrinking, types that own memory
#[no_mangle]
pub extern "C-unwind" fn h_c23_wide(n: u64, set: u64, _c: u64, _d: u64) {
    let live = heap_live();
    let mut s = S::new();
    s.regs(5);
    let n = n as usize;
    s.creates(n);
    groups(&mut s, set as usize);
    let step = [1, 3, 7][pick(3)];
    for i in 0..n {
        let e = n - (i * step) % n;
        s.att::<E>(e);
        s.att::<A>(e);
        if i % 2 == 0 {
            s.att::<B>(e);
        }
    }
    let e = s.m.any_living();
    match pick(3) {
        0 => s.remove(e),
        1 => s.det::<E>(e),
        _ => s.det::<A>(e),
    }
    observe::<(&E, &A)>(&s.w, &mut s.m, IDS);
    see(&mut s, set as usize, NEXT);
    drop(s);
    check(heap_live() == live, code::HEAP);
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c23_far(n: u64, mode: u64, k: u64, set: u64) {
    let live = heap_live();
    let mut s = S::new();
    let set = set as usize;
    s.reg::<E>();
    let ids = s.far_world(n as usize, mode as usize, k, set);
    for e in ids {
        if s.m.ex[e] {
            s.att::<E>(e);
        }
    }
    if s.m.ex[ids[2]] {
        s.remove(ids[2]);
    }
    if s.m.ex[ids[0]] {
        s.det::<E>(ids[0]);
    }
    see(&mut s, set, IDS | LOOK);
    observe::<&mut E>(&s.w, &mut s.m, IDS | WRITE);
    for i in 0..3 {
        let id = if i == 2 { some_id(&s.m) } else { eid(ids[i] + i) };
        let r = s.w.entity_component_read::<A>(id);
        if let Some(x) = r {
            log(1, x.v() as u64);
        }
    }
    s.verify();
    drop(s);
    check(heap_live() == live, code::HEAP);
}

/// a world of any shape shown while guards or a query are held
#[no_mangle]
pub extern "C-unwind" fn h_c23_show(n: u64, k: u64, set: u64, _d: u64) {
    use std::fmt::Write;
    struct Sink(usize);
    impl Write for Sink {
        fn write_str(&mut self, x: &str) -> std::fmt::Result {
            self.0 += x.len();
            Ok(())
        }
    }
    let live = heap_live();
    let mut s = S::new();
    s.regs(3);
    s.creates(n as usize);
    groups(&mut s, set as usize);
    s.subset(0, n as usize);
    s.ops(2, k);
    {
        let how = pick(6);
        let c = if how == 1 { s.w.components_write::<A>() } else { None };
        let q = if how == 2 { Some(s.w.query::<(&mut A, &B)>()) } else { None };
        let e = if how == 3 { s.w.entity(some_id(&s.m)) } else { None };
        let h = if how == 4 { Some(s.w.create_entities(0)) } else { None };
        let r = if how == 5 { s.w.components_read::<B>() } else { None };
        let mut o = Sink(0);
        check(write!(o, "{:?}", s.w).is_ok(), code::PANIC_MISSING);
        check(o.0 > 0, code::PANIC_MISSING);
        let mut p = Sink(0);
        check(write!(p, "{:#?}", s.w).is_ok(), code::PANIC_MISSING);
        check(p.0 > 0, code::PANIC_MISSING);
        drop((c, q, e, h, r));
    }
    s.verify();
    see(&mut s, set as usize, IDS);
    drop(s);
    check(heap_live() == live, code::HEAP);
}
