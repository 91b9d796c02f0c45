//! C09, C10, C11: the query of a group equals the intersection of its components.
pub use crate::soak::h_soak;
pub use crate::many::h_many;
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;
use xecs::group::*;

macro_rules! all {
    ($g:ident, $x:ty, $y:ty, $s:expr) => {{
        let (w, m) = (&$s.w, &mut $s.m);
        observe::<$g<&$x, &$y>>(w, m, NEXT);
        observe::<$g<&$x, &mut $y>>(w, m, IDS | WRITE);
        observe::<$g<&mut $x, &$y>>(w, m, NEXT | WRITE);
        observe::<$g<&mut $x, &mut $y>>(w, m, IDS | WRITE);
        observe::<$g<&$x, &$y>>(w, m, IDS);
        observe::<$g<&$x, &mut $y>>(w, m, NEXT | WRITE);
        observe::<$g<&mut $x, &$y>>(w, m, IDS | WRITE);
        observe::<$g<&mut $x, &mut $y>>(w, m, NEXT | WRITE);
        $s.verify();
    }};
}
macro_rules! look {
    ($g:ident, $s:expr) => {{
        let (w, m) = (&$s.w, &mut $s.m);
        match pick(4) {
            0 => observe::<$g<&A, &B>>(w, m, NEXT | LOOK | LOOKMID),
            1 => observe::<$g<&A, &mut B>>(w, m, NEXT | LOOK | WRITE),
            2 => observe::<$g<&mut A, &B>>(w, m, NEXT | LOOK | WRITE),
            _ => observe::<$g<&mut A, &mut B>>(w, m, NEXT | LOOK | WRITE),
        }
        $s.verify();
    }};
}
fn kind(g: u64) -> usize {
    [FULL_AB, PART_AB, NON_AB][g as usize]
}

/// group `g` made before, between or after every arrangement of A and B; `k` operations
#[no_mangle]
pub extern "C-unwind" fn h_grp(g: u64, n: u64, k: u64, look: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(2);
    s.creates(n);
    let at = pick(3);
    if at == 0 {
        s.group(kind(g));
    }
    s.populate(0, n);
    if at == 1 {
        s.group(kind(g));
    }
    s.populate(1, n);
    if at == 2 {
        s.group(kind(g));
    }
    s.ops(2, k);
    if look != 0 {
        match g {
            0 => look!(FullOwning, s),
            1 => look!(PartialOwning, s),
            _ => look!(NonOwning, s),
        }
    } else {
        match g {
            0 => all!(FullOwning, A, B, s),
            1 => all!(PartialOwning, A, B, s),
            _ => all!(NonOwning, A, B, s),
        }
    }
}

/// arbitrary operations from nothing, the group made at a symbolic point
#[no_mangle]
pub extern "C-unwind" fn h_grp_ops(g: u64, n: u64, k: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(2);
    s.creates(n);
    // A on everyone, B on the even ones: some are in the group from the start
    for e in 1..=n {
        s.att::<A>(e);
    }
    let at = pick(k as usize + 1) as u64;
    for i in 0..k {
        if i == at {
            s.group(kind(g));
        }
        s.op(2);
    }
    if at == k {
        s.group(kind(g));
    }
    match g {
        0 => all!(FullOwning, A, B, s),
        1 => all!(PartialOwning, A, B, s),
        _ => all!(NonOwning, A, B, s),
    }
}

/// other groups share the storages: `set` is one of c05::groups
#[no_mangle]
pub extern "C-unwind" fn h_grp_sets(set: u64, n: u64, k: u64, _d: u64) {
    let mut s = S::new();
    let (n, set) = (n as usize, set as usize);
    s.regs(3);
    s.creates(n);
    let early = pick(2) == 0;
    if early {
        groups(&mut s, set);
    }
    s.subset(2, n);
    s.populate(0, n);
    s.subset(1, n);
    if !early {
        groups(&mut s, set);
    }
    s.ops(3, k);
    see(&mut s, set, NEXT);
    see(&mut s, set, IDS);
    s.verify();
}

/// component types of other sizes and kinds
#[no_mangle]
pub extern "C-unwind" fn h_grp_types(g: u64, n: u64, k: u64, d: u64) {
    fn go<X: Comp + Copy, Y: Comp + Copy>(g: u64, n: usize, k: u64) {
        let mut s = S::new();
        s.reg::<X>();
        s.reg::<Y>();
        s.creates(n);
        for e in 1..=n {
            if pick(2) == 1 {
                s.att::<X>(n + 1 - e);
            }
        }
        match g {
            0 => s.w.make_group(full_owning::<X, Y>()),
            1 => s.w.make_group(partial_owning::<X, Y>()),
            _ => s.w.make_group(non_owning::<X, Y>()),
        }
        for e in 1..=n {
            if pick(2) == 1 {
                s.att::<Y>(e);
            }
        }
        for _ in 0..k {
            let l = s.m.living();
            let c = pick(5 * l);
            let e = s.m.nth(c % l);
            match c / l {
                0 => s.att::<X>(e),
                1 => s.det::<X>(e),
                2 => s.att::<Y>(e),
                3 => s.det::<Y>(e),
                _ => s.remove(e),
            }
            if s.m.living() == 0 {
                break;
            }
        }
        match g {
            0 => all!(FullOwning, X, Y, s),
            1 => all!(PartialOwning, X, Y, s),
            _ => all!(NonOwning, X, Y, s),
        }
    }
    match d {
        0 => go::<F, C>(g, n as usize, k),
        1 => go::<D, Z>(g, n as usize, k),
        2 => go::<Z, D>(g, n as usize, k),
        4 => go::<G, L>(g, n as usize, k),
        5 => go::<L, G>(g, n as usize, k),
        _ => go::<B, A>(g, n as usize, k),
    }
}

/// many entities
#[no_mangle]
pub extern "C-unwind" fn h_grp_wide(g: u64, n: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(2);
    s.creates(n);
    let at = pick(3);
    if at == 0 {
        s.group(kind(g));
    }
    let (a, b) = [(1, 2), (2, 1), (3, 2), (1, 1)][pick(4)];
    for e in 1..=n {
        if e % a == 0 {
            s.att::<A>(e);
        }
    }
    if at == 1 {
        s.group(kind(g));
    }
    for e in (1..=n).rev() {
        if e % b == 0 {
            s.att::<B>(e);
        }
    }
    if at == 2 {
        s.group(kind(g));
    }
    let e = s.m.any_living();
    match pick(4) {
        0 => s.remove(e),
        1 => s.det::<A>(e),
        2 => s.det::<B>(e),
        _ => s.att::<B>(e),
    }
    let e = [1, n / 2, n][pick(3)];
    if s.m.ex[e] {
        s.att::<A>(e);
        s.att::<B>(e);
    }
    match g {
        0 => all!(FullOwning, A, B, s),
        1 => all!(PartialOwning, A, B, s),
        _ => all!(NonOwning, A, B, s),
    }
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_grp_far(n: u64, mode: u64, k: u64, set: u64) {
    let mut s = S::new();
    let set = set as usize;
    s.far_world(n as usize, mode as usize, k, set);
    match set {
        1 => all!(FullOwning, A, B, s),
        2 => all!(PartialOwning, A, B, s),
        3 => all!(NonOwning, A, B, s),
        _ => {
            see(&mut s, set, NEXT);
            see(&mut s, set, IDS | LOOK);
        }
    }
}
/// group `g` of `n` entities grown and shrunk: few choices, many members
#[no_mangle]
pub extern "C-unwind" fn h_grp_deep(g: u64, n: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(2);
    s.creates(n);
    let early = pick(2) == 0;
    if early {
        s.group(kind(g));
    }
    let down = pick(2) == 1;
    for i in 0..n {
        s.att::<A>(if down { n - i } else { i + 1 });
    }
    for e in 1..=n {
        if e % 3 != 0 {
            s.att::<B>(e);
        }
    }
    if !early {
        s.group(kind(g));
    }
    let e = 1 + pick(n);
    match pick(3) {
        0 => s.remove(e),
        1 => s.det::<A>(e),
        _ => s.det::<B>(e),
    }
    match g {
        0 => observe::<FullOwning<&A, &mut B>>(&s.w, &mut s.m, IDS | WRITE),
        1 => observe::<PartialOwning<&A, &mut B>>(&s.w, &mut s.m, IDS | WRITE),
        _ => observe::<NonOwning<&A, &mut B>>(&s.w, &mut s.m, IDS | WRITE),
    }
    s.verify();
    for e in 1..=n {
        if e % 5 == 2 && s.m.ex[e] {
            s.det::<A>(e);
        }
    }
    match g {
        0 => observe::<FullOwning<&mut A, &B>>(&s.w, &mut s.m, NEXT),
        1 => observe::<PartialOwning<&mut A, &B>>(&s.w, &mut s.m, NEXT),
        _ => observe::<NonOwning<&mut A, &B>>(&s.w, &mut s.m, NEXT),
    }
    s.verify();
}
