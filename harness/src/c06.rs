//! C06: single-component queries.
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;

fn run<X: Comp>(n: u64, k: u64, group: u64) {
    let mut s = S::new();
    s.reg::<X>();
    if !s.m.reg[B::K] {
        s.reg::<B>();
    }
    if !s.m.reg[A::K] {
        s.reg::<A>();
    }
    let n = n as usize;
    s.creates(n);
    let mut left = [1, 2, 3, 4, 5, 6, 7, 8];
    let mut c = n;
    while c > 0 {
        let i = pick(c + 1);
        if i == c {
            break;
        }
        s.att::<X>(left[i]);
        left[i] = left[c - 1];
        c -= 1;
    }
    if group != 0 {
        s.subset(1, n);
        s.group(group as usize - 1);
    } else {
        s.att::<B>(1);
    }
    for _ in 0..k {
        let l = s.m.living();
        let c = pick(3 * l + 1);
        if c == 3 * l {
            s.create();
        } else {
            let e = s.m.nth(c % l);
            match c / l {
                0 => s.att::<X>(e),
                1 => s.det::<X>(e),
                _ => s.remove(e),
            }
        }
    }
    observe::<&X>(&s.w, &mut s.m, NEXT);
    observe::<&X>(&s.w, &mut s.m, IDS | LOOK);
    observe::<&mut X>(&s.w, &mut s.m, NEXT | WRITE);
    observe::<&mut X>(&s.w, &mut s.m, IDS | WRITE | LOOK);
    s.verify();
}
/// `d` chooses the type, `c` a group (0: none, else 1 + its number)
#[no_mangle]
pub extern "C-unwind" fn h_c06(n: u64, k: u64, c: u64, d: u64) {
    match d {
        0 => run::<A>(n, k, c),
        1 => run::<E>(n, k, 0),
        2 => run::<Z>(n, k, 0),
        3 => run::<F>(n, k, 0),
        4 => run::<G>(n, k, 0),
        5 => run::<L>(n, k, 0),
        _ => run::<C>(n, k, 0),
    }
}
/// many entities
#[no_mangle]
pub extern "C-unwind" fn h_c06_wide(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    s.regs(1);
    let n = n as usize;
    s.creates(n);
    let step = [1, 3, 7, 11][pick(4)];
    for i in 0..n {
        let e = n - (i * step) % n;
        if !s.m.has(0, e) {
            s.att::<A>(e);
        }
    }
    let e = s.m.any_living();
    s.det::<A>(e);
    let f = s.m.nth([0, n / 2, n - 1][pick(3)]);
    s.remove(f);
    observe::<&A>(&s.w, &mut s.m, IDS);
    observe::<&mut A>(&s.w, &mut s.m, NEXT | WRITE);
    observe::<&mut A>(&s.w, &mut s.m, IDS | WRITE);
    observe::<&A>(&s.w, &mut s.m, NEXT);
    s.verify();
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c06_far(n: u64, mode: u64, k: u64, set: u64) {
    let mut s = S::new();
    s.far_world(n as usize, mode as usize, k, set as usize);
    observe::<&A>(&s.w, &mut s.m, IDS);
    observe::<&mut A>(&s.w, &mut s.m, NEXT | WRITE);
    observe::<&mut A>(&s.w, &mut s.m, IDS | WRITE);
    observe::<&A>(&s.w, &mut s.m, NEXT | LOOK);
    s.verify();
}
