//! C17: threads that hold nothing never block each other, or themselves, for ever.
use crate::by_group;
use crate::w::*;

const SIMPLE: usize = 21;
fn kinds(set: u64) -> usize {
    SIMPLE + 4 * group_set(set).len()
}
macro_rules! iterate {
    ($q:ty, $w:expr) => {{
        let mut q = $w.query::<$q>();
        let mut n = 0;
        while let Some(_) = q.next() {
            n += 1;
            assume(n < 20);
        }
    }};
}
macro_rules! group_iter {
    ($k:ident, $f:ident, $x:ty, $y:ty, $w:expr, $v:expr) => {
        match $v {
            0 => iterate!($k<&$x, &$y>, $w),
            1 => iterate!($k<&$x, &mut $y>, $w),
            2 => iterate!($k<&mut $x, &$y>, $w),
            _ => iterate!($k<&mut $x, &mut $y>, $w),
        }
    };
}
/// operation `k`; those on one entity take entity `e`. It may be gone: then they panic
fn op(w: &World, set: u64, k: usize, e: usize) {
    match k {
        0 => {
            w.create_entity().into_id();
        }
        1 => {
            w.create_entities(2).attach::<A, _>(vec![A(1), A(2)]).attach::<B, _>(vec![B(1), B(2)]).into_ids();
        }
        2 => w.attach_component(eid(e), A(1)),
        3 => w.attach_component(eid(e), B(1)),
        4 => w.attach_component(eid(e), C(1)),
        5 => {
            w.detach_component::<A>(eid(e));
        }
        6 => {
            w.detach_component::<B>(eid(e));
        }
        7 => {
            w.detach_component::<C>(eid(e));
        }
        8 => w.remove_entity(eid(e)),
        9 => match w.entity(eid(e)) {
            Some(h) => h.manaully_drop(),
            None => {}
        },
        10 => {
            w.exist(eid(e));
        }
        11 => drop(w.entity_component_read::<A>(eid(e))),
        12 => drop(w.entity_component_write::<B>(eid(e))),
        13 => drop(w.components_read::<B>()),
        14 => drop(w.components_write::<A>()),
        15 => drop(w.resource_read::<A>()),
        16 => drop(w.resource_write::<A>()),
        17 => iterate!(&A, w),
        18 => iterate!(&mut B, w),
        19 => {
            w.create_entity().attach(B(1)).attach(A(1)).into_id();
        }
        20 => drop(w.components_write::<C>()),
        _ => {
            let g = group_set(set)[(k - SIMPLE) / 4];
            by_group!(g, group_iter, w, (k - SIMPLE) % 4)
        }
    }
}
struct Th<'a> {
    w: &'a World,
    set: u64,
    k: usize,
    e: usize,
}
extern "C-unwind" fn body(d: *mut u8) {
    let t = unsafe { &*(d as *const Th) };
    let r = attempt(|| op(t.w, t.set, t.k, t.e));
    if r.is_none() {
        cover(42);
    }
}
fn setup(set: u64, has: &[usize]) -> World {
    let mut w = world(set, has, &[[1, 2, 3], [4, 5, 6], [7, 8, 9]], false);
    w.register_resource(A(3));
    w
}
fn on_entity(k: usize) -> bool {
    (k >= 2 && k <= 9) || k == 11 || k == 12
}

/// two threads, every pair of operations: the first in [from, to)
#[no_mangle]
pub extern "C-unwind" fn h_c17(set: u64, full: u64, from: u64, to: u64) {
    let n = kinds(set);
    let (from, to) = (from as usize, (to as usize).min(n));
    let k1 = from + pick(to - from);
    let k2 = k1 + pick(n - k1);
    // the entity of the first has A and B, unless `full`: then it has anything
    let h1 = if full != 0 { pick(8) } else { [3, 7, 5, 1][pick(4)] };
    let e2 = if on_entity(k1) && on_entity(k2) { 1 + pick(2) } else { 1 };
    let w = setup(set, &[h1, 7]);
    let mut a = Th { w: &w, set, k: k1, e: 1 };
    let mut b = Th { w: &w, set, k: k2, e: e2 };
    spawn(body, &mut a);
    spawn(body, &mut b);
    run_all();
    all_free(&w);
    cover(1);
}
/// one operation of every way to lock: the first, and the last of each group
fn typical(set: u64, i: usize) -> usize {
    const FEW: [usize; 9] = [0, 2, 3, 5, 8, 11, 12, 14, 17];
    if i < 9 {
        FEW[i]
    } else {
        let g = i - 9;
        SIMPLE + 4 * (g / 2) + 3 * (g % 2)
    }
}
/// three threads; `few`: typical operations only
#[no_mangle]
pub extern "C-unwind" fn h_c17_three(set: u64, from: u64, to: u64, few: u64) {
    let n = if few != 0 { 9 + 2 * group_set(set).len() } else { kinds(set) };
    let (from, to) = (from as usize, (to as usize).min(n));
    let k1 = from + pick(to - from);
    let k2 = k1 + pick(n - k1);
    let k3 = k2 + pick(n - k2);
    let (k1, k2, k3) = if few != 0 { (typical(set, k1), typical(set, k2), typical(set, k3)) } else { (k1, k2, k3) };
    let w = setup(set, &[3, 7]);
    let mut a = Th { w: &w, set, k: k1, e: 1 };
    let mut b = Th { w: &w, set, k: k2, e: 1 };
    let mut c = Th { w: &w, set, k: k3, e: 2 };
    spawn(body, &mut a);
    spawn(body, &mut b);
    spawn(body, &mut c);
    run_all();
    all_free(&w);
    cover(1);
}
/// one thread: no operation waits for itself, on any entity
#[no_mangle]
pub extern "C-unwind" fn h_c17_one(set: u64, _b: u64, _c: u64, _d: u64) {
    let k = pick(kinds(set));
    let h = [pick(8), pick(8)];
    let e = 1 + pick(3);
    let w = setup(set, &h);
    let r = attempt(|| op(&w, set, k, e));
    let _ = r;
    all_free(&w);
    cover(1);
}
