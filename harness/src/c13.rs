//! C13: which groups are accepted.
use crate::m::*;
use crate::xs::*;
use xecs::group::*;

const ACCEPTED_WRONGLY: u64 = 210;
const REFUSED_WRONGLY: u64 = 211;
const QUERIED_WRONGLY: u64 = 212;

macro_rules! by_types {
    ($x:expr, $y:expr, $f:ident, $($a:expr),*) => {
        match $x * 4 + $y {
            0 => $f!(A, A, $($a),*),
            1 => $f!(A, B, $($a),*),
            2 => $f!(A, C, $($a),*),
            3 => $f!(A, D, $($a),*),
            4 => $f!(B, A, $($a),*),
            5 => $f!(B, B, $($a),*),
            6 => $f!(B, C, $($a),*),
            7 => $f!(B, D, $($a),*),
            8 => $f!(C, A, $($a),*),
            9 => $f!(C, B, $($a),*),
            10 => $f!(C, C, $($a),*),
            11 => $f!(C, D, $($a),*),
            12 => $f!(D, A, $($a),*),
            13 => $f!(D, B, $($a),*),
            14 => $f!(D, C, $($a),*),
            _ => $f!(D, D, $($a),*),
        }
    };
}
macro_rules! make {
    ($x:ty, $y:ty, $s:expr, $k:expr) => {
        match $k {
            0 => $s.w.make_group(full_owning::<$x, $y>()),
            1 => $s.w.make_group(partial_owning::<$x, $y>()),
            _ => $s.w.make_group(non_owning::<$x, $y>()),
        }
    };
}
macro_rules! ask {
    ($x:ty, $y:ty, $s:expr, $k:expr, $m:expr) => {
        match $k {
            0 => ask!(@ FullOwning, $x, $y, $s, $m),
            1 => ask!(@ PartialOwning, $x, $y, $s, $m),
            _ => ask!(@ NonOwning, $x, $y, $s, $m),
        }
    };
    (@ $g:ident, $x:ty, $y:ty, $s:expr, $m:expr) => {
        match $m {
            0 => drop($s.w.query::<$g<&$x, &$y>>()),
            1 => drop($s.w.query::<$g<&mut $x, &$y>>()),
            2 => drop($s.w.query::<$g<&$x, &mut $y>>()),
            _ => drop($s.w.query::<$g<&mut $x, &mut $y>>()),
        }
    };
}
macro_rules! see {
    ($x:ty, $y:ty, $s:expr, $k:expr) => {
        match $k {
            0 => observe::<FullOwning<&$x, &$y>>(&$s.w, &mut $s.m, IDS),
            1 => observe::<PartialOwning<&$x, &$y>>(&$s.w, &mut $s.m, IDS),
            _ => observe::<NonOwning<&$x, &$y>>(&$s.w, &mut $s.m, IDS),
        }
    };
}

/// `k` attempts to make arbitrary groups of four types, of which D is registered only when
/// `reg` is; `ops` operations after each
#[no_mangle]
pub extern "C-unwind" fn h_c13(k: u64, reg: u64, ops: u64, n: u64) {
    let mut s = S::new();
    s.regs(if reg != 0 { 4 } else { 3 });
    let n = n as usize;
    s.creates(n);
    for e in 1..=n {
        s.att::<A>(n + 1 - e);
        if e % 2 == 0 {
            s.att::<B>(e);
        }
        if e > 1 {
            s.att::<C>(e);
        }
        if reg != 0 && e < n {
            s.att::<D>(e);
        }
    }
    let mut made = [(9, 0, 0); 8];
    let mut c = 0;
    let mut owned = [false; 4];
    for _ in 0..k {
        let g = pick(48);
        let (kind, x, y) = (g / 16, g / 4 % 4, g % 4);
        let mut ok = x != y && s.m.reg[x] && s.m.reg[y];
        for i in 0..c {
            ok &= made[i] != (kind, x, y);
        }
        if kind <= 1 {
            ok &= !owned[x];
        }
        if kind == 0 {
            ok &= !owned[y];
        }
        let r = attempt(|| by_types!(x, y, make, s, kind));
        if ok {
            check(r.is_some(), REFUSED_WRONGLY);
            made[c] = (kind, x, y);
            c += 1;
            if kind <= 1 {
                owned[x] = true;
            }
            if kind == 0 {
                owned[y] = true;
            }
            cover(22);
        } else {
            check(r.is_none(), ACCEPTED_WRONGLY);
            cover(23);
        }
        s.ops(2, ops);
        s.verify();
    }
    for i in 0..c {
        let (kind, x, y) = made[i];
        by_types!(x, y, see, s, kind);
    }
    // exactly the groups that were made can be queried, by whatever references
    if ops > 0 {
        return;
    }
    let muts = if k < 3 { pick(4) } else { 4 };
    for g in 0..48 {
        let (kind, x, y) = (g / 16, g / 4 % 4, g % 4);
        let mut there = false;
        for i in 0..c {
            there |= made[i] == (kind, x, y);
        }
        let r = attempt(|| by_types!(x, y, ask, s, kind, if muts < 4 { muts } else { (g + kind) % 4 }));
        check(r.is_some() == there, QUERIED_WRONGLY);
    }
}
