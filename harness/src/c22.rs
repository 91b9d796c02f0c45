//! C22: cursor, length and lookup contract of every query iterator.
pub use crate::soak::h_soak;
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;

const F: u32 = MIX | HINT | END;
const L: u32 = NEXT | HINT | END | LOOK | LOOKMID;

macro_rules! kinds {
    ($s:expr, $i:expr, $f:expr, $($n:literal: $q:ty,)*) => {
        match $i {
            $($n => observe::<$q>(&$s.w, &mut $s.m, $f),)*
            _ => fail(9004),
        }
    };
}
macro_rules! ungrouped {
    ($s:expr, $i:expr, $f:expr) => {
        kinds!($s, $i, $f,
            0: &A,
            1: &mut A,
            2: (&A, &B),
            3: (&mut B, &A),
            4: (&A, &B, &C),
            5: (&C, &mut B, &A),
            6: (&A, &B, &C, &A),
            7: (&C, &B, &A, &B, &A),
            8: (&A, Without<&B>),
            9: (Without<&A>, &mut B),
            10: ((&A, &B), Without<&C>),
            11: (Without<(&A, &C)>, &B),
            12: (&A, (&B, Without<&C>)),
            13: ((&A, Without<&B>), &C),
        )
    };
}
macro_rules! grouped {
    ($g:ident, $s:expr, $i:expr, $f:expr) => {
        kinds!($s, $i, $f,
            0: $g<&A, &B>,
            1: $g<&A, &mut B>,
            2: $g<&mut A, &B>,
            3: $g<&mut A, &mut B>,
            4: ($g<&A, &B>, &C),
            5: (&mut C, $g<&mut A, &B>),
            6: ($g<&mut A, &mut B>, Without<&C>),
            7: (Without<$g<&A, &mut B>>, &C),
            8: (&A, $g<&A, &B>),
        )
    };
}

/// every mix of fetching with and without ids, hints all along, fetching after the end
#[no_mangle]
pub extern "C-unwind" fn h_c22(n: u64, look: u64, _c: u64, d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(3);
    s.creates(n);
    s.populate(0, n);
    s.subset(1, n);
    if d != 0 {
        for e in 1..=n {
            if e % 2 == 0 {
                s.att::<C>(e);
            }
        }
    } else {
        s.subset(2, n);
    }
    let f = if look != 0 { L } else { F };
    let i = pick(14);
    ungrouped!(s, i, f);
}
/// the same for groups, after `k` operations
#[no_mangle]
pub extern "C-unwind" fn h_c22_group(n: u64, look: u64, g: u64, k: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(3);
    s.creates(n);
    if n > 1 {
        s.att::<C>(2);
    }
    let early = pick(2) == 0;
    if early {
        s.group(g as usize);
    }
    s.populate(0, n);
    s.subset(1, n);
    if !early {
        s.group(g as usize);
    }
    s.ops(2, k);
    let f = if look != 0 { L } else { F };
    let i = pick(9);
    match g as usize {
        FULL_AB => grouped!(FullOwning, s, i, f),
        PART_AB => grouped!(PartialOwning, s, i, f),
        _ => grouped!(NonOwning, s, i, f),
    }
}
/// the with_id adapter and iterator adapters see the same
#[no_mangle]
pub extern "C-unwind" fn h_c22_adapters(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(2);
    s.creates(n);
    s.populate(0, n);
    s.subset(1, n);
    s.group([FULL_AB, PART_AB, NON_AB][pick(3)]);
    let c = s.m.count(0);
    {
        let mut it = s.w.query::<&A>().with_id();
        check(it.size_hint() == (c, Some(c)), code::HINT_EXACT);
        let mut got = 0;
        while let Some((id, x)) = it.next() {
            got += 1;
            check(un(id) <= n, code::ITEM_ID);
            check(s.m.s[0][un(id)] == x.s(), code::ITEM_MIXED);
            check(it.size_hint() == (c - got, Some(c - got)), code::HINT_EXACT);
        }
        check(got == c, code::ITEM_MISSING);
    }
    check(s.w.query::<&A>().count() == c, code::ITEM_MISSING);
    {
        // skipping items
        let k = pick(n + 2);
        let mut q = s.w.query::<&mut A>();
        let x = q.nth(k).is_some();
        check(x == (k < c), code::ITEM_MISSING);
        let left = if k < c { c - k - 1 } else { 0 };
        check(q.size_hint() == (left, Some(left)), code::HINT_EXACT);
        check(q.count() == left, code::ITEM_MISSING);
    }
    cover(1);
}

/// owners far apart, hints and lookups all along
#[no_mangle]
pub extern "C-unwind" fn h_c22_far(n: u64, mode: u64, k: u64, set: u64) {
    let mut s = S::new();
    let set = set as usize;
    s.far_world(n as usize, mode as usize, k, set);
    let f = NEXT | HINT | END | LOOK;
    let i = pick(6);
    match set {
        1 => kinds!(s, i, f, 0: FullOwning<&A, &B>, 1: FullOwning<&mut A, &B>, 2: (FullOwning<&A, &mut B>, &C), 3: &A, 4: &mut B, 5: (&B, &A),),
        2 => kinds!(s, i, f, 0: PartialOwning<&A, &B>, 1: PartialOwning<&mut A, &B>, 2: (PartialOwning<&A, &mut B>, &C), 3: &A, 4: &mut B, 5: (&B, Without<&A>),),
        _ => kinds!(s, i, f, 0: NonOwning<&A, &B>, 1: NonOwning<&mut A, &B>, 2: (NonOwning<&A, &mut B>, &C), 3: &A, 4: &mut B, 5: (&B, &A, &C),),
    }
}
/// many items
#[no_mangle]
pub extern "C-unwind" fn h_c22_wide(n: u64, g: u64, _c: u64, _d: u64) {
    let mut s = S::new();
    let n = n as usize;
    s.regs(3);
    s.creates(n);
    let early = pick(2) == 0;
    if early {
        s.group(g as usize);
    }
    for e in 1..=n {
        s.att::<A>(e);
        if e % 3 != 0 {
            s.att::<B>(n + 1 - e);
        }
        if e % 2 != 0 {
            s.att::<C>(e);
        }
    }
    if !early {
        s.group(g as usize);
    }
    let f = HINT | END | pick(2) as u32;
    if pick(2) == 0 {
        let i = pick(14);
        ungrouped!(s, i, f);
    } else {
        let i = pick(9);
        match g as usize {
            FULL_AB => grouped!(FullOwning, s, i, f),
            PART_AB => grouped!(PartialOwning, s, i, f),
            _ => grouped!(NonOwning, s, i, f),
        }
    }
}
