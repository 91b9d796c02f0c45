//! Long histories: the sequence of operations follows from a symbolic choice of seed, the payloads
//! are symbolic; and worlds emptied of many entities in several orders.
use crate::m::*;
use crate::xs::*;
use xecs::query::*;

struct Lcg(u64);
impl Lcg {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
}

/// `steps` operations on a world of about `n` entities, which grows and shrinks in waves; groups
/// `set` made at a point that depends on the seed; everything looked at every 64 operations
#[no_mangle]
pub extern "C-unwind" fn h_soak(n: u64, set: u64, steps: u64, seeds: u64) {
    let live = heap_live();
    let mut s = S::new();
    let (n, set) = (n as usize, set as usize);
    s.regs(4);
    s.reg::<H>();
    let seed = pick(seeds as usize);
    let mut r = Lcg(seed as u64 * 7919 + 11);
    let mut r = Lcg(r.below(1 << 30) as u64);
    let at = [0, steps / 4, steps / 2][seed % 3];
    for i in 0..steps {
        if i == at {
            groups(&mut s, set);
        }
        // waves: fill for a while, then empty
        let filling = (i / (2 * n as u64)) % 3 != 2;
        let c = r.below(16);
        let l = s.m.living();
        if l == 0 || l < n && c == 0 {
            if filling && c % 2 == 0 {
                s.create();
            }
            continue;
        }
        let e = s.m.nth(r.below(l));
        let k = [0, 1, 2, 0, 1, 3, 9][r.below(7)];
        let attach = if filling { 11 } else { 4 };
        if c <= attach {
            s.att_k(k, e);
        } else if c < 15 {
            s.det_k(k, e);
        } else if l > n / 2 || !filling {
            s.remove(e);
        } else {
            s.wr::<A>(e);
        }
        if i % 64 == 63 {
            s.verify();
            if i >= at {
                see(&mut s, set, if i % 128 == 63 { IDS } else { NEXT | HINT });
            }
        }
    }
    s.verify();
    see(&mut s, set, NEXT | HINT | WRITE);
    see(&mut s, set, IDS | END);
    let look = pick(4);
    let f = |i| if look == i { LOOK } else { 0 };
    if look == 0 && set > 0 {
        see(&mut s, set, NEXT | LOOK);
    }
    let (w, m) = (&s.w, &mut s.m);
    observe::<&mut A>(w, m, IDS | WRITE | HINT);
    observe::<(&A, &mut B)>(w, m, IDS | WRITE | HINT | f(1));
    observe::<(&C, &B, &A)>(w, m, NEXT | f(2));
    observe::<(&A, Without<&C>)>(w, m, IDS | f(3));
    // and all of it away
    for e in 1..=s.m.n {
        if s.m.ex[e] {
            s.remove(e);
        }
    }
    s.verify();
    see(&mut s, set, IDS);
    drop(s);
    check(heap_live() == live, code::HEAP);
}

/// `n` entities made one by one or at once, all of them removed in one of several orders, and made
/// again: `order` judges which ids are handed out
#[no_mangle]
pub extern "C-unwind" fn h_drain(n: u64, order: u64, _c: u64, _d: u64) {
    let w = world();
    let n = n as usize;
    if pick(2) == 0 {
        for e in 1..=n {
            let id = w.create_entity().into_id();
            check(order == 0 || un(id) == e, code::CREATE_RANGE);
        }
    } else {
        let r = w.create_entities(n).into_ids();
        check((un(r.start) == 1) & (un(r.end) == n + 1), code::CREATE_RANGE);
    }
    let how = pick(6);
    let mut gone = vec![];
    let mut dead = vec![false; n + 2];
    dead[n + 1] = true;
    for i in 0..n {
        let e = match how {
            0 => i + 1,
            1 => n - i,
            // every other first
            2 => {
                if i < n / 2 {
                    2 * i + 2
                } else {
                    2 * (i - n / 2) + 1
                }
            }
            // outside in
            3 => {
                if i % 2 == 0 {
                    i / 2 + 1
                } else {
                    n - i / 2
                }
            }
            // all but the first
            4 => i + 2,
            // the first half
            _ => {
                if i < n / 2 {
                    n / 2 - i
                } else {
                    0
                }
            }
        };
        if e == 0 || e > n {
            continue;
        }
        w.remove_entity(eid(e));
        dead[e] = true;
        gone.push(e);
        check(!w.exist(eid(e)), code::EXIST);
        let o = 1 + (e * 13 + 5) % n;
        check(w.exist(eid(o)) == !dead[o], code::EXIST);
    }
    for e in 1..=n + 1 {
        check(w.exist(eid(e)) == (e <= n && !dead[e]), code::EXIST);
    }
    // a batch does not take any of them
    let mut next = n + 1;
    if pick(2) == 0 {
        let r = w.create_entities(3).into_ids();
        check((un(r.start) == n + 1) & (un(r.end) == n + 4), code::CREATE_RANGE);
        next += 3;
    }
    let top = next - 1;
    dead.resize(next + n + 8, true);
    for e in n + 1..next {
        dead[e] = false;
    }
    for i in 0..gone.len() + 4 {
        let id = un(w.create_entity().into_id());
        let exp = if i < gone.len() {
            gone[gone.len() - 1 - i]
        } else {
            next += 1;
            next - 1
        };
        check(order == 0 || id == exp, code::CREATE_RANGE);
        let id = fork(id);
        check(id >= 1 && id < dead.len() && dead[id], code::CREATE_LIVING);
        dead[id] = false;
    }
    if order != 0 {
        for e in 1..=top + 4 {
            check(w.exist(eid(e)), code::EXIST);
        }
        check(!w.exist(eid(top + 5)), code::EXIST);
    } else {
        for e in 1..dead.len() {
            check(w.exist(eid(e)) == !dead[e], code::EXIST);
        }
    }
    cover(1);
}
