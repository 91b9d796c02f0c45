//! C01 existence, C02 id allocation: histories of creates, batch creates and removals.
pub use crate::soak::h_drain;
pub use crate::huge::h_huge;
use crate::m::{any_id, code, eid, must_panic, un, world};
/// greatest id followed
const N: usize = 300;
use crate::xs::*;
use xecs::*;

/// What is known about the ids: which live, which wait to be reissued (latest last).
struct Ids {
    w: World,
    live: [bool; N + 2],
    issued: [bool; N + 2],
    stack: [usize; N],
    top: usize,
    /// greatest id issued
    hi: usize,
    removals: usize,
    /// judge which ids are handed out
    order: bool,
}
impl Ids {
    fn issue(&mut self, id: usize, batch: bool) {
        check((id >= 1) & (id <= N), code::CREATE_LIVING);
        let id = fork(id);
        check(!self.live[id], code::CREATE_LIVING);
        if self.order {
            if batch {
                check(!self.issued[id], code::CREATE_RANGE);
            } else if self.top > 0 {
                check(self.stack[self.top - 1] == id, code::CREATE_RANGE);
                cover(10);
            } else {
                let mut f = 1;
                while self.issued[f] {
                    f += 1;
                }
                check(f == id, code::CREATE_RANGE);
            }
        }
        // take it out of the pending ones, wherever it is
        let mut i = 0;
        while i < self.top {
            if self.stack[i] == id {
                for j in i + 1..self.top {
                    self.stack[j - 1] = self.stack[j];
                }
                self.top -= 1;
                break;
            }
            i += 1;
        }
        self.live[id] = true;
        self.issued[id] = true;
        self.hi = self.hi.max(id);
    }
    fn living(&self) -> usize {
        (1..=self.hi).filter(|&e| self.live[e]).count()
    }
    fn nth(&self, i: usize) -> usize {
        (1..=self.hi).filter(|&e| self.live[e]).nth(i).unwrap_or_else(|| fail(9001))
    }
    fn removed(&mut self, e: usize) {
        self.live[e] = false;
        self.stack[self.top] = e;
        self.top += 1;
        self.removals += 1;
    }
    fn expect(&self, id: EntityId) -> bool {
        let mut r = id.get() <= gap();
        let id = un(id);
        for e in 1..=self.hi {
            if self.live[e] {
                r |= id == e;
            }
        }
        r
    }
    /// an arbitrary id, issued or not
    fn probe(&self) {
        let id = any_id();
        let x = self.w.exist(id);
        check(x == self.expect(id), code::EXIST);
        log(1, x as u64);
        let id = any_id();
        let h = self.w.entity(id);
        check(h.is_some() == self.expect(id), code::EXIST);
        if let Some(h) = h {
            check(h.into_id() == id, code::ITEM_ID);
        }
        // all small ids, one after the other: no fork each
        for e in 1..=8 {
            check(self.w.exist(eid(e)) == self.live[e], code::EXIST);
        }
        cover(1);
    }
    fn new(order: bool) -> Ids {
        Ids {
            w: world(),
            live: [false; N + 2],
            issued: [false; N + 2],
            stack: [0; N],
            top: 0,
            hi: 0,
            removals: 0,
            order,
        }
    }
    /// one arbitrary step; false: stop here
    fn step(&mut self, batch: usize) -> bool {
        let l = self.living();
        let c = pick(2 + batch + l + (l > 0) as usize);
        if c == 0 {
            return false;
        }
        if c == 1 {
            let id = un(self.w.create_entity().into_id());
            self.issue(id, false);
        } else if c < 2 + batch {
            let n = c - 2;
            let r = self.w.create_entities(n).into_ids();
            check(un(r.end) - un(r.start) == n, code::CREATE_RANGE);
            for i in 0..n {
                self.issue(un(r.start) + i, true);
            }
            if n > 0 {
                cover(11);
            }
        } else if c < 2 + batch + l {
            let e = self.nth(c - 2 - batch);
            self.w.remove_entity(eid(e));
            self.removed(e);
        } else {
            // through its handle: the first living one
            let e = self.nth(0);
            match self.w.entity(eid(e)) {
                Some(h) => h.manaully_drop(),
                None => fail(code::EXIST),
            }
            self.removed(e);
        }
        true
    }
}

#[no_mangle]
pub extern "C-unwind" fn h_c01(k: u64, batch: u64, order: u64, _d: u64) {
    let mut s = Ids::new(order != 0);
    for _ in 0..k {
        if !s.step(batch as usize) {
            break;
        }
    }
    s.probe();
}

/// creates `n` entities one by one or in batches, removes some in a symbolic order, creates again
#[no_mangle]
pub extern "C-unwind" fn h_c01_reuse(n: u64, r: u64, order: u64, batch: u64) {
    let mut s = Ids::new(order != 0);
    let n = n as usize;
    let b = if batch != 0 { pick(3) } else { 0 };
    if b > 0 {
        let ids = s.w.create_entities(b).into_ids();
        for i in 0..b {
            s.issue(un(ids.start) + i, true);
        }
    }
    for _ in b..n {
        let id = un(s.w.create_entity().into_id());
        s.issue(id, false);
    }
    for _ in 0..r {
        let e = s.nth(pick(s.living()));
        s.w.remove_entity(eid(e));
        s.removed(e);
    }
    s.probe();
    let c = pick(r as usize + 2);
    for i in 0..c {
        if batch != 0 && i == 1 {
            let ids = s.w.create_entities(2).into_ids();
            check(un(ids.end) - un(ids.start) == 2, code::CREATE_RANGE);
            s.issue(un(ids.start), true);
            s.issue(un(ids.start) + 1, true);
        }
        let id = un(s.w.create_entity().into_id());
        s.issue(id, false);
    }
    s.probe();
    // and a refused removal changes nothing
    let id = any_id();
    assume(!s.expect(id));
    must_panic(|| s.w.remove_entity(id));
    s.probe();
}

/// many entities: `n` created, one batch at a symbolic point, one removal of any, one create
#[no_mangle]
pub extern "C-unwind" fn h_c01_wide(n: u64, order: u64, _c: u64, _d: u64) {
    let mut s = Ids::new(order != 0);
    let n = n as usize;
    let at = pick(3) * n / 2;
    for i in 0..n {
        if i == at {
            let ids = s.w.create_entities(5).into_ids();
            for j in 0..5 {
                s.issue(un(ids.start) + j, true);
            }
        }
        let id = un(s.w.create_entity().into_id());
        s.issue(id, false);
    }
    let e = s.nth(pick(s.living()));
    s.w.remove_entity(eid(e));
    s.removed(e);
    let f = s.nth(pick(4) * (s.living() - 1) / 3);
    s.w.remove_entity(eid(f));
    s.removed(f);
    let id = any_id();
    check(s.w.exist(id) == s.expect(id), code::EXIST);
    for _ in 0..3 {
        let id = un(s.w.create_entity().into_id());
        s.issue(id, false);
    }
    let id = any_id();
    check(s.w.exist(id) == s.expect(id), code::EXIST);
    cover(1);
}

/// `n` entities at once; one or two of them, anywhere, are removed, then 2 batches and singles
#[no_mangle]
pub extern "C-unwind" fn h_c01_far(n: u64, order: u64, mode: u64, _d: u64) {
    let mut s = Ids::new(order != 0);
    let n = n as usize;
    let ids = s.w.create_entities(n).into_ids();
    check((un(ids.start) == 1) & (un(ids.end) == n + 1), code::CREATE_RANGE);
    for e in 1..=n {
        s.live[e] = true;
        s.issued[e] = true;
    }
    s.hi = n;
    let l = crate::m::EDGE;
    let mut c = 0;
    while c < l.len() && l[c] <= n {
        c += 1;
    }
    let (e, f) = if mode == 0 {
        (1 + pick(n), 1)
    } else {
        let e = l[pick(c)];
        (e, l[pick(c)])
    };
    s.w.remove_entity(eid(e));
    s.removed(e);
    if e != f {
        s.w.remove_entity(eid(f));
        s.removed(f);
    }
    for i in [1, e - 1, e, e + 1, f + 1, n, n + 1] {
        if i > 0 {
            check(s.w.exist(eid(i)) == s.live[i], code::EXIST);
            check(s.w.entity(eid(i)).is_some() == s.live[i], code::EXIST);
        }
    }
    if mode != 0 {
        let id = any_id();
        let i = un(id);
        assume((i > n) | (i == e) | (i == f) | (i == 1) | (i == n));
        check(s.w.exist(id) == s.expect(id), code::EXIST);
    }
    let batch = pick(3);
    if batch > 0 {
        let ids = s.w.create_entities(batch).into_ids();
        check(un(ids.end) - un(ids.start) == batch, code::CREATE_RANGE);
        for i in 0..batch {
            s.issue(un(ids.start) + i, true);
        }
    }
    for _ in 0..3 {
        let id = un(s.w.create_entity().into_id());
        s.issue(id, false);
    }
    for i in [1, e, f, n, n + 1, n + 2, n + 3, n + 4, n + 5] {
        check(s.w.exist(eid(i)) == s.live[i], code::EXIST);
    }
    cover(1);
}
