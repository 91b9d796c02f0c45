//! C08: exclusion queries.
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;

fn both<'a, Q>(w: &'a xecs::World, m: &mut M, write: u32)
where
    Q: Queryable<'a> + Sat,
    Q::Item: Probe,
{
    observe::<Q>(w, m, NEXT | write);
    observe::<Q>(w, m, IDS | write);
}
fn queries(s: &mut S, types: usize) {
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, Without<&B>)>(w, m, 0);
    both::<(Without<&B>, &A)>(w, m, 0);
    both::<(&mut A, Without<&mut B>)>(w, m, WRITE);
    both::<(Without<&A>, &mut B)>(w, m, WRITE);
    both::<(&A, Without<&A>)>(w, m, 0);
    if types >= 3 {
        both::<(&A, Without<(&B, &C)>)>(w, m, 0);
        both::<(Without<(&A, &C)>, &mut B)>(w, m, WRITE);
        both::<((&A, &C), Without<&B>)>(w, m, 0);
        both::<(Without<&B>, (&mut C, &A))>(w, m, WRITE);
        // nested exclusions
        both::<(Without<&B>, (&A, Without<&C>))>(w, m, 0);
        both::<((Without<&B>, &A), Without<&C>)>(w, m, 0);
        both::<(&A, Without<(&B, Without<&C>)>)>(w, m, 0);
        both::<(&A, Without<(Without<&C>, &B)>)>(w, m, 0);
        both::<(Without<(Without<&A>, &C)>, &B)>(w, m, 0);
        both::<((&A, Without<&B>), &C)>(w, m, 0);
        both::<(&C, (Without<&B>, &A))>(w, m, 0);
    }
    if types >= 5 {
        both::<(&A, Without<(&B, &C, &D)>)>(w, m, 0);
        both::<(Without<(&E, &C, &D)>, &A)>(w, m, 0);
        both::<((&A, &B, &E), Without<(&C, &D)>)>(w, m, 0);
    }
    s.verify();
}
/// every arrangement of A and B, arbitrary subsets of the other types, `k` operations
#[no_mangle]
pub extern "C-unwind" fn h_c08(n: u64, types: u64, k: u64, perms: u64) {
    let mut s = S::new();
    let (n, types) = (n as usize, types as usize);
    s.regs(types);
    s.creates(n);
    for t in 0..types {
        if t < perms as usize {
            s.populate(t, n)
        } else {
            s.subset(t, n)
        }
    }
    s.ops(types, k);
    queries(&mut s, types);
}
#[no_mangle]
pub extern "C-unwind" fn h_c08_group(n: u64, k: u64, g: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(3);
    s.creates(n);
    let early = pick(2) == 0;
    if early {
        s.group(g as usize);
    }
    s.populate(0, n);
    s.subset(1, n);
    s.subset(2, n);
    if !early {
        s.group(g as usize);
    }
    s.ops(3, k);
    let (w, m) = (&s.w, &mut s.m);
    if g == FULL_AB as u64 {
        both::<(&C, Without<FullOwning<&A, &B>>)>(w, m, 0);
        both::<(Without<FullOwning<&A, &B>>, &A)>(w, m, 0);
        both::<(FullOwning<&A, &mut B>, Without<&C>)>(w, m, WRITE);
        both::<(Without<FullOwning<&mut A, &mut B>>, &C)>(w, m, 0);
        both::<(Without<FullOwning<&mut A, &B>>, &C)>(w, m, 0);
        both::<(&C, Without<FullOwning<&A, &mut B>>)>(w, m, 0);
    } else if g == PART_AB as u64 {
        both::<(&C, Without<PartialOwning<&A, &B>>)>(w, m, 0);
        both::<(Without<PartialOwning<&A, &B>>, &A)>(w, m, 0);
        both::<(PartialOwning<&A, &mut B>, Without<&C>)>(w, m, WRITE);
        both::<(Without<PartialOwning<&mut A, &mut B>>, &C)>(w, m, 0);
        both::<(Without<PartialOwning<&mut A, &B>>, &C)>(w, m, 0);
        both::<(&C, Without<PartialOwning<&A, &mut B>>)>(w, m, 0);
    } else {
        both::<(&C, Without<NonOwning<&A, &B>>)>(w, m, 0);
        both::<(Without<NonOwning<&A, &B>>, &A)>(w, m, 0);
        both::<(NonOwning<&A, &mut B>, Without<&C>)>(w, m, WRITE);
        both::<(Without<NonOwning<&mut A, &mut B>>, &C)>(w, m, 0);
        both::<(Without<NonOwning<&mut A, &B>>, &C)>(w, m, 0);
        both::<(&C, Without<NonOwning<&A, &mut B>>)>(w, m, 0);
    }
    s.verify();
}
/// looking an arbitrary id up
#[no_mangle]
pub extern "C-unwind" fn h_c08_look(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(3);
    s.creates(n);
    for t in 0..3 {
        s.subset(t, n);
    }
    let (w, m) = (&s.w, &mut s.m);
    match pick(5) {
        0 => observe::<(&A, Without<&B>)>(w, m, NEXT | LOOK),
        1 => observe::<(Without<&B>, &mut A)>(w, m, NEXT | LOOK | WRITE),
        2 => observe::<(&A, Without<(&B, &C)>)>(w, m, NEXT | LOOK),
        3 => observe::<(Without<(&B, Without<&C>)>, &A)>(w, m, NEXT | LOOK),
        _ => observe::<((&A, Without<&B>), Without<&C>)>(w, m, NEXT | LOOK),
    }
    s.verify();
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c08_far(n: u64, mode: u64, k: u64, set: u64) {
    let mut s = S::new();
    s.far_world(n as usize, mode as usize, k, set as usize);
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, Without<&B>)>(w, m, 0);
    both::<(Without<&A>, &mut B)>(w, m, WRITE);
    both::<(&A, Without<(&B, &C)>)>(w, m, 0);
    both::<(&B, Without<(&A, Without<&C>)>)>(w, m, 0);
    s.verify();
}
/// many entities
#[no_mangle]
pub extern "C-unwind" fn h_c08_wide(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let n = n as usize;
    s.creates(n);
    let (a, b, c) = [(1, 2, 3), (2, 1, 1), (3, 2, 1), (5, 1, 2)][pick(4)];
    for e in 1..=n {
        if e % a == 0 {
            s.att::<A>(e);
        }
        let f = n + 1 - e;
        if f % b == 0 {
            s.att::<B>(f);
        }
        if e % c == 1 % c {
            s.att::<C>(e);
        }
    }
    let e = s.m.any_living();
    match pick(3) {
        0 => s.remove(e),
        1 => s.det::<A>(e),
        _ => s.att::<B>(e),
    }
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, Without<&B>)>(w, m, 0);
    both::<(Without<&A>, &mut B)>(w, m, WRITE);
    both::<(&C, Without<(&A, &B)>)>(w, m, 0);
    s.verify();
}
