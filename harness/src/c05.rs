//! C05: removing an entity removes all of it and nothing else.
pub use crate::soak::h_soak;
pub use crate::many::h_many;
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;
use xecs::query::*;

/// remove any entity from a world with the groups of `set`, then give its id to a new one
#[no_mangle]
pub extern "C-unwind" fn h_c05(n: u64, set: u64, k: u64, third: u64) {
    let mut s = S::new();
    s.regs(3);
    let (n, set) = (n as usize, set as usize);
    s.creates(n);
    let early = pick(2) == 0;
    if early {
        groups(&mut s, set);
    }
    s.populate(0, n);
    s.populate(1, n);
    if third != 0 {
        s.subset(2, n);
    }
    if !early {
        groups(&mut s, set);
    }
    s.ops(2, k);
    if s.m.living() == 0 {
        return;
    }
    let e = s.m.any_living();
    let had = s.m.has(0, e) & s.m.has(1, e);
    s.remove(e);
    if had {
        cover(20);
    }
    s.verify();
    see(&mut s, set, IDS);
    observe::<&A>(&s.w, &mut s.m, IDS);
    observe::<(&B, &mut A)>(&s.w, &mut s.m, IDS);
    observe::<(&B, Without<&A>)>(&s.w, &mut s.m, IDS);
    let e = s.create();
    s.verify();
    s.att::<B>(e);
    see(&mut s, set, NEXT);
    s.att::<A>(e);
    s.verify();
    see(&mut s, set, IDS);
}

/// two removals and what is left, with more types than groups know
#[no_mangle]
pub extern "C-unwind" fn h_c05_two(n: u64, set: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(5);
    let (n, set) = (n as usize, set as usize);
    groups(&mut s, set);
    s.creates(n);
    s.subset(0, n);
    s.subset(1, n);
    for e in 1..=n {
        s.att_k(2 + e % 3, e);
        if e % 2 == 0 {
            s.att_k(2 + (e + 1) % 3, e);
        }
    }
    for _ in 0..2 {
        let e = s.m.any_living();
        if pick(2) == 0 {
            s.remove(e);
        } else {
            let h = s.w.entity(eid(e));
            check(h.is_some(), code::EXIST);
            if let Some(h) = h {
                h.manaully_drop();
            }
            s.m.gone(e);
        }
        s.verify();
        see(&mut s, set, IDS);
    }
    s.create();
    s.create();
    s.verify();
    see(&mut s, set, NEXT);
}

/// many entities
#[no_mangle]
pub extern "C-unwind" fn h_c05_wide(n: u64, set: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let (n, set) = (n as usize, set as usize);
    s.creates(n);
    let (a, b) = [(1, 1), (2, 3), (3, 2), (1, 5)][pick(4)];
    for e in 1..=n {
        if e % a == 0 {
            s.att::<A>(e);
        }
    }
    groups(&mut s, set);
    for e in (1..=n).rev() {
        if e % b == 0 {
            s.att::<B>(e);
        }
        if e % 4 == 1 {
            s.att::<C>(e);
        }
    }
    let e = s.m.any_living();
    s.remove(e);
    let f = [1, n / 2, n][pick(3)];
    if s.m.ex[f] {
        s.remove(f);
    }
    s.verify();
    see(&mut s, set, IDS);
    let e = s.create();
    s.att::<A>(e);
    s.att::<B>(e);
    s.verify();
    see(&mut s, set, NEXT);
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c05_far(n: u64, mode: u64, set: u64, _d: u64) {
    let mut s = S::new();
    let set = set as usize;
    let ids = s.far_world(n as usize, mode as usize, 0, set);
    let e = ids[pick(3)];
    s.remove(e);
    s.verify();
    see(&mut s, set, IDS);
    let f = s.create();
    s.verify();
    s.att::<B>(f);
    s.att::<A>(f);
    for e in ids {
        if s.m.ex[e] {
            s.remove(e);
        }
    }
    s.verify();
    see(&mut s, set, NEXT);
}
