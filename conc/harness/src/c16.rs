//! C16: what is held makes conflicting requests wait, and only those, until it is dropped.
use crate::by_group;
use crate::w::*;
use std::ops::DerefMut;

const GRANTED: u64 = 230; // a request that conflicts with what is held was granted
const REFUSED: u64 = 231; // a request that does not conflict had to wait
const STUCK: u64 = 232; // still waiting after everything was dropped

/// what an access touches: A, B, C, resource A, resource B, the entities
const NT: usize = 6;
#[derive(Clone, Copy, PartialEq)]
enum Use {
    No,
    Shared,
    Excl,
    /// may use it in either way
    May,
}
use Use::*;
type Foot = [Use; NT];
const NONE: Foot = [No; NT];
fn foot(l: &[(usize, Use)]) -> Foot {
    let mut f = NONE;
    for (i, u) in l {
        f[*i] = *u;
    }
    f
}

/// keeps an access alive
trait Alive {}
impl<T> Alive for T {}

const SIMPLE: usize = 22;
const GV: usize = 4;
fn kinds(set: u64) -> usize {
    SIMPLE + GV * group_set(set).len()
}

fn iter<'a, Q: Queryable<'a> + 'a>(w: &'a World, used: usize) -> Box<dyn Alive + 'a>
where
    <Q as Queryable<'a>>::Item: 'a,
{
    let mut q = w.query::<Q>();
    let mut last = None;
    match used {
        0 => {}
        1 => last = q.next(),
        2 => last = q.next_with_id().map(|x| x.1),
        _ => while let Some(_) = q.next() {},
    }
    let r = Box::new((q, last.is_some()));
    r
}
macro_rules! group_iter {
    ($k:ident, $f:ident, $x:ty, $y:ty, $w:expr, $v:expr, $used:expr) => {
        match $v {
            0 => iter::<$k<&$x, &$y>>($w, $used),
            1 => iter::<$k<&$x, &mut $y>>($w, $used),
            2 => iter::<$k<&mut $x, &$y>>($w, $used),
            _ => iter::<$k<&mut $x, &mut $y>>($w, $used),
        }
    };
}
/// access number `k` to the world; `used`: how far iterators have been used
fn access<'a>(w: &'a World, set: u64, k: usize, used: usize) -> Box<dyn Alive + 'a> {
    match k {
        0 => Box::new(w.components_read::<A>()),
        1 => Box::new(w.components_write::<A>()),
        2 => Box::new(w.entity_component_read::<A>(eid(1))),
        3 => Box::new(w.entity_component_write::<A>(eid(1))),
        4 => iter::<&A>(w, used),
        5 => iter::<&mut A>(w, used),
        6 => iter::<(&A, &B)>(w, used),
        7 => iter::<(&mut A, &B)>(w, used),
        8 => iter::<(&B, &mut A)>(w, used),
        9 => iter::<(&mut B, &mut A)>(w, used),
        10 => iter::<(&A, Without<&B>)>(w, used),
        11 => iter::<(Without<&B>, &mut A)>(w, used),
        12 => iter::<(&C, &mut A, &B)>(w, used),
        13 => iter::<((&C, &B), &mut A)>(w, used),
        14 => Box::new(w.resource_read::<A>()),
        15 => Box::new(w.resource_write::<A>()),
        16 => Box::new(w.resource_read::<B>()),
        17 => Box::new(w.entity(eid(2))),
        18 => Box::new(w.components_write::<B>()),
        19 => Box::new(w.components_read::<C>()),
        20 => {
            // through the adapter for ids
            let mut q = w.query::<&mut A>().with_id();
            if used != 0 {
                q.next();
            }
            Box::new(q)
        }
        21 => Box::new(w.entity_component_write::<B>(eid(1))),
        _ => {
            let g = group_set(set)[(k - SIMPLE) / GV];
            let v = (k - SIMPLE) % GV;
            by_group!(g, group_iter, w, v, used)
        }
    }
}
fn footprint(set: u64, k: usize) -> Foot {
    match k {
        0 | 2 | 4 => foot(&[(0, Shared)]),
        1 | 3 | 5 | 20 => foot(&[(0, Excl)]),
        6 | 10 => foot(&[(0, Shared), (1, Shared)]),
        7 | 8 | 11 => foot(&[(0, Excl), (1, Shared)]),
        9 => foot(&[(0, Excl), (1, Excl)]),
        12 | 13 => foot(&[(0, Excl), (1, Shared), (2, Shared)]),
        14 => foot(&[(3, Shared)]),
        15 => foot(&[(3, Excl)]),
        16 => foot(&[(4, Shared)]),
        17 => foot(&[(5, Shared)]),
        18 | 21 => foot(&[(1, Excl)]),
        19 => foot(&[(2, Shared)]),
        _ => {
            let (x, y) = group_types(group_set(set)[(k - SIMPLE) / GV]);
            let v = (k - SIMPLE) % GV;
            foot(&[
                (x, if v & 2 != 0 { Excl } else { Shared }),
                (y, if v & 1 != 0 { Excl } else { Shared }),
            ])
        }
    }
}
/// Some(true): must wait, Some(false): must not
fn must_wait(held: &Foot, req: &Foot) -> Option<bool> {
    let mut unsure = false;
    for i in 0..NT {
        match (held[i], req[i]) {
            (No, _) | (_, No) | (Shared, Shared) => {}
            (Shared, Excl) | (Excl, Shared) | (Excl, Excl) => return Some(true),
            _ => unsure = true,
        }
    }
    if unsure {
        None
    } else {
        Some(false)
    }
}

struct Req<'a> {
    w: &'a World,
    set: u64,
    k: usize,
    used: usize,
}
extern "C-unwind" fn request(d: *mut u8) {
    let r = unsafe { &*(d as *const Req) };
    drop(access(r.w, r.set, r.k, r.used));
}

fn setup(set: u64) -> World {
    let v = [[v32(), v32(), v32()], [v32(), v32(), v32()], [v32(), v32(), v32()]];
    let mut w = world(set, &[3, 7, 5], &v, pick(2) == 1);
    w.register_resource(A(v32()));
    w.register_resource(B(v32()));
    w
}
fn judge(held: &Foot, req: &Foot, t: u64) -> bool {
    let done = step(t);
    match must_wait(held, req) {
        Some(true) => {
            check(!done, GRANTED);
            cover(40);
        }
        Some(false) => {
            check(done, REFUSED);
            cover(41);
        }
        None => {}
    }
    log(1, done as u64);
    done
}

/// access `k` of [from, to) held, every access requested
#[no_mangle]
pub extern "C-unwind" fn h_c16(set: u64, used: u64, from: u64, to: u64) {
    let w = setup(set);
    let to = (to as usize).min(kinds(set));
    let h = from as usize + pick(to - from as usize);
    let r = pick(kinds(set));
    let used = pick(used as usize + 1);
    let held = access(&w, set, h, used);
    let mut q = Req { w: &w, set, k: r, used };
    let t = spawn(request, &mut q);
    let done = judge(&footprint(set, h), &footprint(set, r), t);
    drop(held);
    if !done {
        check(step(t), STUCK);
    }
    all_free(&w);
    cover(1);
}

// ---- handles and structural operations
const OPS: usize = 12;
fn op(w: &World, k: usize) {
    match k {
        0 => {
            w.create_entity().into_id();
        }
        1 => {
            w.create_entities(2).attach::<C, _>(vec![C(1), C(2)]).into_ids();
        }
        2 => w.attach_component(eid(3), B(1)),
        3 => w.attach_component(eid(1), C(1)),
        4 => {
            w.detach_component::<A>(eid(1));
        }
        5 => {
            w.detach_component::<C>(eid(3));
        }
        6 => w.remove_entity(eid(1)),
        7 => w.remove_entity(eid(4)),
        8 => {
            w.exist(eid(2));
        }
        9 => drop(w.entity(eid(3))),
        10 => match w.entity(eid(4)) {
            Some(h) => h.manaully_drop(),
            None => fail(9007),
        },
        _ => {
            w.create_entity().attach(A(4)).into_id();
        }
    }
}
/// entities: 1 {A,B}, 2 {A,B,C}, 3 {A,C}, 4 {}
fn op_foot(set: u64, k: usize) -> Foot {
    // a group of a type touches the other one as well
    let touch = |f: &mut Foot, t: usize| {
        for g in group_set(set) {
            let (x, y) = group_types(*g);
            if x == t || y == t {
                for z in [x, y] {
                    if f[z] == No {
                        f[z] = May;
                    }
                }
            }
        }
    };
    let mut f = NONE;
    match k {
        0 => f[5] = May,
        1 => {
            f[5] = May;
            f[2] = Excl;
            touch(&mut f, 2);
        }
        2 => {
            f[1] = Excl;
            f[5] = May;
            touch(&mut f, 1);
        }
        3 | 5 => {
            f[2] = Excl;
            f[5] = May;
            touch(&mut f, 2);
        }
        4 => {
            f[0] = Excl;
            f[5] = May;
            touch(&mut f, 0);
        }
        // removals look everywhere; what the entity has is taken away
        6 => {
            f = [Excl, Excl, May, No, No, Excl];
        }
        7 | 10 => f = [May, May, May, No, No, Excl],
        8 | 9 => f[5] = Shared,
        _ => {
            f[5] = May;
            f[0] = Excl;
            touch(&mut f, 0);
        }
    }
    f
}
extern "C-unwind" fn request_op(d: *mut u8) {
    let r = unsafe { &*(d as *const Req) };
    op(r.w, r.k);
}
/// every access and every kind of handle held, every structural operation requested, and the
/// accesses requested while a handle is held
#[no_mangle]
pub extern "C-unwind" fn h_c16_struct(set: u64, used: u64, _c: u64, _d: u64) {
    let w = setup(set);
    let e4 = w.create_entity().into_id();
    check(e4 == eid(4), 9006);
    let nh = kinds(set) + 5;
    let h = pick(nh);
    let r = pick(OPS + kinds(set));
    let used = pick(used as usize + 1);
    let (held, foot): (Box<dyn Alive + '_>, Foot) = if h < kinds(set) {
        (access(&w, set, h, used), footprint(set, h))
    } else {
        let ents = foot(&[(5, Shared)]);
        match h - kinds(set) {
            0 => (Box::new(w.create_entity()), ents),
            1 => (Box::new(w.create_entities(2)), ents),
            2 => (Box::new(w.create_entity().attach(C(5))), ents),
            3 => (Box::new(w.create_entities(1).attach::<C, _>(vec![C(3)])), ents),
            _ => match w.entity(eid(2)) {
                Some(h) => (Box::new(h.attach(B(3))), ents),
                None => fail(9007),
            },
        }
    };
    let (mut q, rf);
    let t = if r < OPS {
        q = Req { w: &w, set, k: r, used: 0 };
        rf = op_foot(set, r);
        spawn(request_op, &mut q)
    } else {
        q = Req { w: &w, set, k: r - OPS, used };
        rf = footprint(set, r - OPS);
        spawn(request, &mut q)
    };
    let done = judge(&foot, &rf, t);
    drop(held);
    if !done {
        check(step(t), STUCK);
    }
    all_free(&w);
    cover(1);
}
