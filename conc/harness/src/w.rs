//! Worlds, groups and single accesses, for all concurrent harnesses.
#![allow(dead_code, unused_macros, unused_imports)]
pub use xecs::group::*;
pub use xecs::query::*;
pub use xecs::*;
pub use xsrt::*;
pub use xtypes::*;

pub fn eid(e: usize) -> EntityId {
    match EntityId::new(e) {
        Some(x) => x,
        None => fail(9000),
    }
}

/// the groups of a set: at most three
pub fn group_set(set: u64) -> &'static [u8] {
    match set {
        0 => &[],
        1 => &[FULL_AB],
        2 => &[PART_AB],
        3 => &[NON_AB],
        4 => &[FULL_AB, NON_AB, NON_BC],
        5 => &[PART_AB, PART_BC, PART_CA],
        6 => &[NON_AB, NON_BA, PART_CA],
        7 => &[NON_BC, FULL_AB, PART_CA],
        8 => &[PART_BA, NON_CA, PART_AB],
        9 => &[FULL_BA, NON_BC],
        _ => fail(9003),
    }
}
pub const FULL_AB: u8 = 0;
pub const PART_AB: u8 = 1;
pub const NON_AB: u8 = 2;
pub const NON_BC: u8 = 3;
pub const PART_BC: u8 = 4;
pub const PART_CA: u8 = 5;
pub const NON_BA: u8 = 6;
pub const PART_BA: u8 = 7;
pub const NON_CA: u8 = 8;
pub const FULL_BA: u8 = 9;

/// run $m!(Kind, X, Y, ...) for group number $g
#[macro_export]
macro_rules! by_group {
    ($g:expr, $m:ident $(, $a:expr)*) => {
        match $g {
            $crate::w::FULL_AB => $m!(FullOwning, full_owning, A, B $(, $a)*),
            $crate::w::PART_AB => $m!(PartialOwning, partial_owning, A, B $(, $a)*),
            $crate::w::NON_AB => $m!(NonOwning, non_owning, A, B $(, $a)*),
            $crate::w::NON_BC => $m!(NonOwning, non_owning, B, C $(, $a)*),
            $crate::w::PART_BC => $m!(PartialOwning, partial_owning, B, C $(, $a)*),
            $crate::w::PART_CA => $m!(PartialOwning, partial_owning, C, A $(, $a)*),
            $crate::w::NON_BA => $m!(NonOwning, non_owning, B, A $(, $a)*),
            $crate::w::PART_BA => $m!(PartialOwning, partial_owning, B, A $(, $a)*),
            $crate::w::NON_CA => $m!(NonOwning, non_owning, C, A $(, $a)*),
            $crate::w::FULL_BA => $m!(FullOwning, full_owning, B, A $(, $a)*),
            _ => fail(9005),
        }
    };
}
macro_rules! make {
    ($k:ident, $f:ident, $x:ty, $y:ty, $w:expr) => {
        $w.make_group($f::<$x, $y>())
    };
}
/// types (0 A, 1 B, 2 C) of a group
pub fn group_types(g: u8) -> (usize, usize) {
    match g {
        FULL_AB | PART_AB | NON_AB => (0, 1),
        NON_BC | PART_BC => (1, 2),
        PART_CA | NON_CA => (2, 0),
        _ => (1, 0),
    }
}

/// `n` entities; entity e has A/B/C as the bits of `has[e]` say; values are given
pub fn world(set: u64, has: &[usize], vals: &[[u32; 3]], late: bool) -> World {
    let mut w = World::new();
    w.register::<A>().register::<B>().register::<C>();
    if !late {
        for g in group_set(set) {
            by_group!(*g, make, w);
        }
    }
    for e in 0..has.len() {
        let id = w.create_entity().into_id();
        check(id == eid(e + 1), 9006);
    }
    for e in 0..has.len() {
        if has[e] & 1 != 0 {
            w.attach_component(eid(e + 1), A(vals[e][0]));
        }
        if has[e] & 2 != 0 {
            w.attach_component(eid(e + 1), B(vals[e][1]));
        }
        if has[e] & 4 != 0 {
            w.attach_component(eid(e + 1), C(vals[e][2]));
        }
    }
    if late {
        for g in group_set(set) {
            by_group!(*g, make, w);
        }
    }
    w
}
/// nothing is locked any more: exclusive access to everything
pub fn all_free(w: &World) {
    drop(w.components_write::<A>());
    drop(w.components_write::<B>());
    drop(w.components_write::<C>());
    drop(w.resource_write::<A>());
    drop(w.resource_write::<B>());
    let id = w.create_entity().into_id();
    w.attach_component(id, A(1));
    w.attach_component(id, B(1));
    w.attach_component(id, C(1));
    w.remove_entity(id);
}
