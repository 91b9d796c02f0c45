//! C18: what concurrent operations leave is what some order of them, one at a time, leaves.
use crate::by_group;
use crate::w::*;

const NO_ORDER: u64 = 240; // no sequential order explains state and results
const TWICE: u64 = 241; // a group yields an entity twice

const NE: usize = 7;
const OPS: usize = 17;
#[derive(Clone, Copy)]
struct Op {
    k: usize,
    e: usize,
    v: u32,
}
type Res = (u64, u64);
const PANIC: Res = (9, 0);

fn op(w: &World, o: &Op) -> Res {
    let some = |x: Option<u32>| x.map_or((1, 0), |v| (2, v as u64));
    match o.k {
        0 => (3, w.create_entity().into_id().get() as u64),
        1 => {
            let r = w.create_entities(2).attach::<A, _>(vec![A(o.v), A(o.v ^ 1)]).into_ids();
            (4, (r.start.get() * 16 + r.end.get()) as u64)
        }
        2 => {
            w.attach_component(eid(o.e), A(o.v));
            (0, 0)
        }
        3 => {
            w.attach_component(eid(o.e), B(o.v));
            (0, 0)
        }
        4 => {
            w.attach_component(eid(o.e), C(o.v));
            (0, 0)
        }
        5 => some(w.detach_component::<A>(eid(o.e)).map(|x| x.0)),
        6 => some(w.detach_component::<B>(eid(o.e)).map(|x| x.0)),
        7 => some(w.detach_component::<C>(eid(o.e)).map(|x| x.0)),
        8 => {
            w.remove_entity(eid(o.e));
            (0, 0)
        }
        9 => match w.entity_component_write::<A>(eid(o.e)) {
            Some(mut g) => {
                g.0 = o.v;
                (1, 0)
            }
            None => (0, 0),
        },
        10 => match w.entity_component_write::<B>(eid(o.e)) {
            Some(mut g) => {
                let old = g.0;
                g.0 = o.v;
                (1, old as u64)
            }
            None => (0, 0),
        },
        11 => some(w.entity_component_read::<A>(eid(o.e)).map(|x| x.0)),
        12 => (w.exist(eid(o.e)) as u64, 0),
        13 => {
            let r = w.create_entities(2).into_ids();
            (4, (r.start.get() * 16 + r.end.get()) as u64)
        }
        // component writes through storage guards: read, then write
        14 => {
            let g = w.components_write::<A>();
            match g {
                Some(mut g) => match g.get_mut(eid(o.e)) {
                    Some(x) => {
                        let old = x.0;
                        x.0 = old.wrapping_add(o.v);
                        (1, old as u64)
                    }
                    None => (0, 0),
                },
                None => (7, 7),
            }
        }
        15 => match w.entity(eid(o.e)) {
            Some(h) => {
                h.manaully_drop();
                (0, 0)
            }
            // gone: as a removal of it
            None => panic!(),
        },
        _ => {
            w.create_entities(1).attach::<B, _>(vec![B(o.v)]).into_ids();
            (0, 0)
        }
    }
}

/// everything observable
#[derive(Clone, Copy)]
struct Obs {
    ex: [bool; NE],
    has: [[bool; NE]; 3],
    val: [[u32; NE]; 3],
    count: [usize; 3],
    g: [[bool; NE]; 3],
    gv: [[(u32, u32); NE]; 3],
    next: usize,
}
macro_rules! group_obs {
    ($k:ident, $f:ident, $x:ty, $y:ty, $w:expr, $in:expr, $val:expr) => {{
        let mut q = $w.query::<$k<&$x, &$y>>();
        while let Some((id, (a, b))) = q.next_with_id() {
            let e = id.get();
            check(e < NE, NO_ORDER);
            check(!$in[e], TWICE);
            $in[e] = true;
            $val[e] = (a.0, b.0);
        }
    }};
}
fn observe(w: &World, set: u64) -> Obs {
    let mut o = Obs {
        ex: [false; NE],
        has: [[false; NE]; 3],
        val: [[0; NE]; 3],
        count: [0; 3],
        g: [[false; NE]; 3],
        gv: [[(0, 0); NE]; 3],
        next: 0,
    };
    for e in 1..NE {
        o.ex[e] = w.exist(eid(e));
    }
    macro_rules! storage {
        ($t:literal, $x:ty) => {
            match w.components_read::<$x>() {
                Some(g) => {
                    o.count[$t] = g.count();
                    for e in 1..NE {
                        if let Some(x) = g.get(eid(e)) {
                            o.has[$t][e] = true;
                            o.val[$t][e] = x.0;
                        }
                    }
                }
                None => fail(9008),
            }
        };
    }
    storage!(0, A);
    storage!(1, B);
    storage!(2, C);
    for (i, g) in group_set(set).iter().enumerate() {
        let (yes, val) = (&mut o.g[i], &mut o.gv[i]);
        by_group!(*g, group_obs, w, yes, val);
    }
    // which id comes next
    o.next = w.create_entity().into_id().get();
    o
}
fn same(a: &Obs, b: &Obs) -> bool {
    let mut r = a.next == b.next;
    for e in 1..NE {
        r &= a.ex[e] == b.ex[e];
        for t in 0..3 {
            r &= a.has[t][e] == b.has[t][e];
            r &= a.val[t][e] == b.val[t][e];
            r &= a.g[t][e] == b.g[t][e];
            r &= (a.gv[t][e].0 == b.gv[t][e].0) & (a.gv[t][e].1 == b.gv[t][e].1);
        }
    }
    for t in 0..3 {
        r &= a.count[t] == b.count[t];
    }
    r
}

struct Th<'a> {
    w: &'a World,
    o: Op,
    r: Res,
}
extern "C-unwind" fn body(d: *mut u8) {
    let t = unsafe { &mut *(d as *mut Th) };
    t.r = attempt(|| op(t.w, &t.o)).unwrap_or(PANIC);
}
fn one_at_a_time(set: u64, has: &[usize], vals: &[[u32; 3]], gone: bool, ops: &[Op], order: &[usize]) -> (Obs, [Res; 3]) {
    let w = start(set, has, vals, gone);
    let mut r = [(0, 0); 3];
    for i in order {
        r[*i] = attempt(|| op(&w, &ops[*i])).unwrap_or(PANIC);
    }
    (observe(&w, set), r)
}
fn start(set: u64, has: &[usize], vals: &[[u32; 3]], gone: bool) -> World {
    let w = world(set, has, vals, false);
    if gone {
        w.remove_entity(eid(has.len()));
    }
    w
}
fn on_entity(k: usize) -> bool {
    k >= 2 && k != 13 && k != 16
}

/// two threads, every pair of operations, the first in [from, to)
#[no_mangle]
pub extern "C-unwind" fn h_c18(set: u64, full: u64, from: u64, to: u64) {
    let to = (to as usize).min(OPS);
    let k1 = from as usize + pick(to - from as usize);
    let k2 = k1 + pick(OPS - k1);
    let h1 = if full != 0 { pick(8) } else { [3, 7, 2, 1][pick(4)] };
    let e2 = if on_entity(k1) && on_entity(k2) { 1 + pick(2) } else { 1 };
    // an id waits to be reissued
    let gone = pick(2) == 1;
    let has = [h1, 7, 3];
    let vals = [[v32(), v32(), v32()], [v32(), v32(), v32()], [v32(), v32(), v32()]];
    let ops = [Op { k: k1, e: 1, v: v32() }, Op { k: k2, e: e2, v: v32() }];
    let w = start(set, &has, &vals, gone);
    let mut a = Th { w: &w, o: ops[0], r: (0, 0) };
    let mut b = Th { w: &w, o: ops[1], r: (0, 0) };
    spawn(body, &mut a);
    spawn(body, &mut b);
    run_all();
    let res = [a.r, b.r];
    let o = observe(&w, set);
    let mut ok = false;
    for order in [[0, 1], [1, 0]] {
        let (p, r) = one_at_a_time(set, &has, &vals, gone, &ops, &order);
        let mut e = same(&o, &p);
        for i in 0..2 {
            e &= (res[i].0 == r[i].0) & (res[i].1 == r[i].1);
        }
        ok |= e;
    }
    check(ok, NO_ORDER);
    log(1, res[0].0 * 100 + res[1].0);
    log(2, o.next as u64);
    if res[0].0 == 9 || res[1].0 == 9 {
        cover(43);
    }
    cover(1);
}
/// three threads on one entity
#[no_mangle]
pub extern "C-unwind" fn h_c18_three(set: u64, from: u64, to: u64, few: u64) {
    // the typical ones: create, attach A and B, detach A and B, remove, write A
    const FEW: [usize; 7] = [0, 2, 3, 5, 6, 8, 9];
    let n = if few != 0 { FEW.len() } else { OPS };
    let to = (to as usize).min(n);
    let k1 = from as usize + pick(to - from as usize);
    let k2 = k1 + pick(n - k1);
    let k3 = k2 + pick(n - k2);
    let (k1, k2, k3) = if few != 0 { (FEW[k1], FEW[k2], FEW[k3]) } else { (k1, k2, k3) };
    let has = [3, 7];
    let vals = [[v32(), v32(), v32()], [v32(), v32(), v32()]];
    let ops = [Op { k: k1, e: 1, v: v32() }, Op { k: k2, e: 1, v: v32() }, Op { k: k3, e: 1, v: v32() }];
    let w = start(set, &has, &vals, false);
    let mut a = Th { w: &w, o: ops[0], r: (0, 0) };
    let mut b = Th { w: &w, o: ops[1], r: (0, 0) };
    let mut c = Th { w: &w, o: ops[2], r: (0, 0) };
    spawn(body, &mut a);
    spawn(body, &mut b);
    spawn(body, &mut c);
    run_all();
    let res = [a.r, b.r, c.r];
    let o = observe(&w, set);
    let mut ok = false;
    for order in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let (p, r) = one_at_a_time(set, &has, &vals, false, &ops, &order);
        let mut e = same(&o, &p);
        for i in 0..3 {
            e &= (res[i].0 == r[i].0) & (res[i].1 == r[i].1);
        }
        ok |= e;
    }
    check(ok, NO_ORDER);
    cover(1);
}
