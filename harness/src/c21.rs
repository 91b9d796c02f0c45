//! C21: a refused operation leaves the world unchanged and usable.
use crate::m::*;
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;
use xecs::*;

/// an arbitrary id of no living entity
fn nobody(s: &S) -> EntityId {
    let id = any_id();
    let mut ex = false;
    for e in s.m.ids() {
        ex |= (id.get() == e) & s.m.ex[e];
    }
    assume(!ex);
    id
}
fn batch_a(n: usize) -> Vec<A> {
    let mut v = Vec::with_capacity(8);
    for _ in 0..n {
        v.push(A::mk(200, A::fresh()));
    }
    v
}

/// a batch of `n` entities, which may hold A already (its serials and values)
fn some_batch<'a>(s: &'a mut S, n: usize) -> (Entities<'a>, [u32; 2], [u32; 2]) {
    let (mut sr, mut vs) = ([0; 2], [0; 2]);
    let h = s.w.create_entities(n);
    if n == 0 || pick(2) == 0 {
        return (h, sr, vs);
    }
    let mut v: Vec<A> = Vec::with_capacity(2);
    for i in 0..n {
        sr[i] = s.m.serial(A::K);
        vs[i] = A::fresh();
        v.push(A::mk(sr[i], vs[i]));
    }
    (h.attach::<A, _>(v), sr, vs)
}
/// one operation that must be refused; D is not registered, A, B and C are
fn refused(s: &mut S, set: usize) {
    let e = if s.m.living() > 0 { s.m.nth(0) } else { 0 };
    match pick(19) {
        0 => {
            if e != 0 {
                must_panic(|| s.w.attach_component(eid(e), D::mk(1, D::fresh())));
            }
        }
        1 => {
            if e != 0 {
                must_panic(|| {
                    if let Some(h) = s.w.entity(eid(e)) {
                        h.attach(D::mk(1, D::fresh()));
                    }
                });
            }
        }
        2 => {
            let n = pick(3);
            let first = s.m.n + 1;
            let mut v: Vec<D> = Vec::with_capacity(4);
            for _ in 0..n {
                v.push(D::mk(1, D::fresh()));
            }
            let (h, sr, vs) = some_batch(s, n);
            must_panic(move || {
                h.attach::<D, _>(v);
            });
            for i in 0..n {
                s.m.ex[first + i] = true;
                s.m.s[A::K][first + i] = sr[i];
                s.m.v[A::K][first + i] = vs[i];
            }
            s.m.n += n;
        }
        3 => {
            if e != 0 {
                must_panic(|| s.w.detach_component::<D>(eid(e)));
            }
        }
        4 => must_panic(|| {
            s.w.register::<A>();
        }),
        5 => must_panic(|| {
            s.w.register::<B>();
        }),
        6 => {
            let id = nobody(s);
            must_panic(|| s.w.attach_component(id, A::mk(200, A::fresh())));
        }
        7 => {
            let id = nobody(s);
            must_panic(|| s.w.detach_component::<A>(id));
        }
        8 => {
            let id = nobody(s);
            must_panic(|| s.w.remove_entity(id));
        }
        9 => {
            // a group there is already, or whose component is owned
            match set {
                1 => match pick(4) {
                    0 => must_panic(|| s.w.make_group(full_owning::<A, B>())),
                    1 => must_panic(|| s.w.make_group(full_owning::<B, A>())),
                    2 => must_panic(|| s.w.make_group(partial_owning::<B, C>())),
                    _ => must_panic(|| s.w.make_group(full_owning::<C, A>())),
                },
                2 => match pick(3) {
                    0 => must_panic(|| s.w.make_group(partial_owning::<A, B>())),
                    1 => must_panic(|| s.w.make_group(partial_owning::<A, C>())),
                    _ => must_panic(|| s.w.make_group(full_owning::<B, A>())),
                },
                3 => must_panic(|| s.w.make_group(non_owning::<A, B>())),
                _ => {}
            }
        }
        10 => match pick(3) {
            0 => must_panic(|| s.w.make_group(full_owning::<C, D>())),
            1 => must_panic(|| s.w.make_group(partial_owning::<C, D>())),
            _ => must_panic(|| s.w.make_group(partial_owning::<D, C>())),
        },
        11 => match pick(3) {
            0 => must_panic(|| s.w.make_group(non_owning::<A, D>())),
            1 => must_panic(|| s.w.make_group(non_owning::<D, B>())),
            _ => must_panic(|| s.w.make_group(non_owning::<D, D>())),
        },
        12 => match pick(3) {
            0 => must_panic(|| s.w.make_group(full_owning::<C, C>())),
            1 => must_panic(|| s.w.make_group(partial_owning::<C, C>())),
            _ => must_panic(|| s.w.make_group(non_owning::<A, A>())),
        },
        13 => {
            let n = pick(3);
            let l = pick(4);
            assume(l != n);
            let first = s.m.n + 1;
            let (h, sr, vs) = some_batch(s, n);
            let b = pick(2) == 1;
            must_panic(move || {
                if b {
                    let mut v: Vec<B> = Vec::with_capacity(4);
                    for _ in 0..l {
                        v.push(B::mk(200, B::fresh()));
                    }
                    h.attach::<B, _>(v);
                } else {
                    h.attach::<A, _>(batch_a(l));
                }
            });
            for i in 0..n {
                s.m.ex[first + i] = true;
                s.m.s[A::K][first + i] = sr[i];
                s.m.v[A::K][first + i] = vs[i];
            }
            s.m.n += n;
        }
        14 => match pick(4) {
            0 => must_panic(|| s.w.query::<FullOwning<&B, &C>>().count()),
            1 if set != 5 => must_panic(|| s.w.query::<PartialOwning<&B, &mut C>>().count()),
            2 if set != 4 => must_panic(|| s.w.query::<NonOwning<&mut B, &C>>().count()),
            3 if set != 4 => must_panic(|| s.w.query::<NonOwning<&mut C, &mut B>>().count()),
            _ => must_panic(|| s.w.query::<FullOwning<&mut C, &mut B>>().count()),
        },
        15 => match pick(4) {
            0 => must_panic(|| s.w.query::<&D>().count()),
            1 => must_panic(|| s.w.query::<&mut D>().count()),
            2 => must_panic(|| s.w.query::<(&mut A, &D)>().count()),
            _ => must_panic(|| s.w.query::<(&mut A, Without<&D>)>().count()),
        },
        16 => match pick(3) {
            0 => must_panic(|| s.w.query::<(&mut A, FullOwning<&B, &C>)>().count()),
            1 => must_panic(|| s.w.query::<(&mut C, &mut B, NonOwning<&D, &A>)>().count()),
            2 if set != 4 => must_panic(|| s.w.query::<(Without<NonOwning<&C, &B>>, &mut A)>().count()),
            _ => must_panic(|| s.w.query::<(Without<FullOwning<&C, &B>>, &mut A)>().count()),
        },
        17 => match set {
            // the queries of groups of another kind than the one made
            1 => must_panic(|| s.w.query::<PartialOwning<&A, &B>>().count()),
            2 => must_panic(|| s.w.query::<NonOwning<&A, &B>>().count()),
            3 => must_panic(|| s.w.query::<FullOwning<&A, &B>>().count()),
            4 => must_panic(|| s.w.query::<PartialOwning<&A, &mut B>>().count()),
            _ => must_panic(|| s.w.query::<FullOwning<&mut A, &mut B>>().count()),
        },
        _ => {
            // a handle outlives the refusal
            if e != 0 {
                let w = &s.w;
                let h = w.entity(eid(e));
                check(h.is_some(), code::EXIST);
                if let Some(h) = h {
                    must_panic(|| h.detach::<D>());
                    must_panic(|| h.attach(D::mk(1, D::fresh())));
                }
            }
        }
    }
}

/// an arbitrary world with groups, one refusal (twice if `c`), then `k` operations
#[no_mangle]
pub extern "C-unwind" fn h_c21(n: u64, set: u64, k: u64, twice: u64) {
    let mut s = S::new();
    s.regs(3);
    let (n, set) = (n as usize, set as usize);
    s.creates(n);
    s.populate(0, n);
    groups(&mut s, set);
    s.subset(1, n);
    if n > 1 && pick(2) == 1 {
        s.remove(2);
    }
    refused(&mut s, set);
    if twice != 0 {
        refused(&mut s, set);
    }
    s.verify();
    see(&mut s, set, IDS);
    // nothing stays locked, and everything works as before
    s.ops(3, k);
    let e = s.create();
    s.att::<A>(e);
    s.att::<B>(e);
    s.att::<C>(e);
    s.verify();
    see(&mut s, set, NEXT);
    observe::<&mut A>(&s.w, &mut s.m, IDS | WRITE);
    observe::<&mut B>(&s.w, &mut s.m, IDS | WRITE);
    observe::<&mut C>(&s.w, &mut s.m, IDS | WRITE);
    // what was refused for want of registration works once registered
    s.reg::<D>();
    s.att::<D>(e);
    s.w.make_group(non_owning::<D, A>());
    observe::<NonOwning<&D, &A>>(&s.w, &mut s.m, IDS);
    s.det::<A>(e);
    s.remove(e);
    s.verify();
    see(&mut s, set, IDS);
}
