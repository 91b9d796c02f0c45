//! C07: tuple queries.
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;

fn both<'a, Q>(w: &'a xecs::World, m: &mut M, write: u32)
where
    Q: Queryable<'a> + Sat,
    Q::Item: Probe,
{
    observe::<Q>(w, m, NEXT | write);
    observe::<Q>(w, m, IDS | write);
}

fn two(s: &mut S) {
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, &B)>(w, m, 0);
    both::<(&B, &A)>(w, m, 0);
    both::<(&mut A, &B)>(w, m, WRITE);
    both::<(&A, &mut B)>(w, m, WRITE);
    both::<(&mut B, &mut A)>(w, m, WRITE);
    both::<(&A, &A)>(w, m, 0);
}
fn three(s: &mut S) {
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, &B, &C)>(w, m, 0);
    both::<(&C, &A, &B)>(w, m, 0);
    both::<(&B, &mut C, &A)>(w, m, WRITE);
    both::<(&mut A, &mut B, &mut C)>(w, m, WRITE);
    both::<((&A, &mut B), &C)>(w, m, WRITE);
    both::<(&A, (&C, &B))>(w, m, 0);
    both::<((&C, &B), (&A, &B))>(w, m, 0);
}
fn four(s: &mut S) {
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, &B, &C, &D)>(w, m, 0);
    both::<(&D, &mut C, &B, &mut A)>(w, m, WRITE);
    both::<((&B, &C), (&mut A, &D))>(w, m, WRITE);
    both::<(&C, (&A, &D, &B))>(w, m, 0);
    both::<((&A, &B, &D), &C)>(w, m, 0);
    both::<((&D, &C, &B, &A), &A)>(w, m, 0);
    both::<(&A, (&D, &C, &B, &A))>(w, m, 0);
}
fn five(s: &mut S) {
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, &B, &C, &D, &E)>(w, m, 0);
    both::<(&mut E, &D, &mut C, &B, &mut A)>(w, m, WRITE);
    both::<(&B, &A, &E, &D, &C)>(w, m, 0);
    both::<((&A, &B), &C, (&D, &E))>(w, m, 0);
    both::<(&B, (&B, &A, &E, &D, &C))>(w, m, 0);
}

fn queries(s: &mut S, types: usize) {
    match types {
        2 => two(s),
        3 => three(s),
        4 => four(s),
        _ => five(s),
    }
    s.verify();
}

/// every arrangement of A and of B, arbitrary subsets for the other types, `k` operations
#[no_mangle]
pub extern "C-unwind" fn h_c07(n: u64, types: u64, k: u64, perms: u64) {
    let mut s = S::new();
    let (n, types) = (n as usize, types as usize);
    s.regs(types);
    s.creates(n);
    for t in 0..types {
        if t < perms as usize {
            s.populate(t, n)
        } else {
            s.subset(t, n)
        }
    }
    s.ops(types, k);
    queries(&mut s, types);
}

/// terms that are groups
#[no_mangle]
pub extern "C-unwind" fn h_c07_group(n: u64, k: u64, g: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(3);
    s.creates(n);
    if g == FULL_AB as u64 {
        s.group(FULL_AB);
    } else if g == PART_AB as u64 {
        s.group(PART_AB);
    } else {
        s.group(NON_AB);
    }
    s.populate(0, n);
    s.subset(1, n);
    s.subset(2, n);
    s.ops(3, k);
    let (w, m) = (&s.w, &mut s.m);
    if g == FULL_AB as u64 {
        both::<(FullOwning<&A, &B>, &C)>(w, m, 0);
        both::<(&mut C, FullOwning<&mut A, &B>)>(w, m, WRITE);
        both::<(FullOwning<&A, &B>, &B)>(w, m, 0);
        both::<(&A, &C, FullOwning<&A, &B>)>(w, m, 0);
    } else if g == PART_AB as u64 {
        both::<(PartialOwning<&A, &B>, &C)>(w, m, 0);
        both::<(&mut C, PartialOwning<&mut A, &B>)>(w, m, WRITE);
        both::<(PartialOwning<&A, &B>, &B)>(w, m, 0);
        both::<(&A, &C, PartialOwning<&A, &B>)>(w, m, 0);
    } else {
        both::<(NonOwning<&A, &B>, &C)>(w, m, 0);
        both::<(&mut C, NonOwning<&mut A, &B>)>(w, m, WRITE);
        both::<(NonOwning<&A, &B>, &B)>(w, m, 0);
        both::<(&A, &C, NonOwning<&A, &B>)>(w, m, 0);
    }
    s.verify();
}

/// looking an arbitrary id up in tuples
#[no_mangle]
pub extern "C-unwind" fn h_c07_look(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(5);
    s.creates(n);
    for t in 0..5 {
        s.subset(t, n);
    }
    let (w, m) = (&s.w, &mut s.m);
    match pick(6) {
        0 => observe::<(&A, &B)>(w, m, NEXT | LOOK),
        1 => observe::<(&C, &mut A, &B)>(w, m, NEXT | LOOK | WRITE),
        2 => observe::<(&D, &A, &B, &C)>(w, m, NEXT | LOOK),
        3 => observe::<(&E, &D, &C, &A, &B)>(w, m, NEXT | LOOK),
        4 => observe::<((&E, &A), (&C, &D))>(w, m, NEXT | LOOK),
        _ => observe::<(&mut E, (&mut A, &D))>(w, m, NEXT | LOOK | WRITE),
    }
    s.verify();
}

/// many entities
#[no_mangle]
pub extern "C-unwind" fn h_c07_wide(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(3);
    let n = n as usize;
    s.creates(n);
    let (a, b, c) = [(1, 2, 3), (2, 1, 1), (3, 2, 1), (5, 1, 2)][pick(4)];
    for e in 1..=n {
        if e % a == 0 {
            s.att::<A>(e);
        }
        let f = n + 1 - e;
        if f % b == 0 {
            s.att::<B>(f);
        }
        if e % c == 1 % c {
            s.att::<C>(e);
        }
    }
    let e = s.m.any_living();
    match pick(3) {
        0 => s.remove(e),
        1 => s.det::<A>(e),
        _ => s.att::<B>(e),
    }
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, &B)>(w, m, 0);
    both::<(&mut B, &A, &C)>(w, m, WRITE);
    both::<(&C, (&A, &B))>(w, m, 0);
    s.verify();
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c07_far(n: u64, mode: u64, k: u64, set: u64) {
    let mut s = S::new();
    s.far_world(n as usize, mode as usize, k, set as usize);
    let (w, m) = (&s.w, &mut s.m);
    both::<(&A, &B)>(w, m, 0);
    both::<(&mut B, &A)>(w, m, WRITE);
    both::<(&B, &mut C, &A)>(w, m, WRITE);
    both::<(&A, (&C, &A))>(w, m, 0);
    s.verify();
}
