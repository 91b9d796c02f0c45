//! C12: groups change no other observable result. Two worlds, one with groups and one without,
//! live the same history; every answer of the one must be the answer of the other.
pub use crate::soak::h_soak;
pub use crate::many::h_many;
pub use crate::huge::h_huge;
use crate::m::*;
use crate::xs::*;
use xecs::query::*;
use xecs::*;

const DIFF_PANIC: u64 = 200;
const DIFF_ID: u64 = 201;
const DIFF_DETACH: u64 = 202;
const DIFF_EXIST: u64 = 203;
const DIFF_READ: u64 = 204;
const DIFF_COUNT: u64 = 205;
const DIFF_QUERY: u64 = 206;
const DIFF_ITEM: u64 = 207;

struct Two {
    /// with groups (`m` is only used to number values)
    g: S,
    p: World,
    n: usize,
    live: [bool; N + 2],
    /// only these ids are looked at, if there are any
    few: [usize; 12],
}
impl Two {
    fn ids(&self) -> Vec<usize> {
        let mut v = Vec::with_capacity(N + 2);
        if self.few[0] != 0 {
            for e in self.few {
                v.push(e);
            }
        } else {
            for e in 1..=self.n {
                v.push(e);
            }
        }
        v.push(self.n + 1);
        v
    }
    fn create(&mut self) -> usize {
        let a = self.g.w.create_entity().into_id();
        let b = self.p.create_entity().into_id();
        check(a == b, DIFF_ID);
        let e = fork(un(b));
        assume(e <= N);
        self.live[e] = true;
        if e > self.n {
            self.n = e
        }
        e
    }
    fn batch(&mut self, k: usize) {
        let xs = [self.val::<A>(), self.val::<A>(), self.val::<A>()];
        let mut va = Vec::with_capacity(k);
        let mut vb = Vec::with_capacity(k);
        for i in 0..k {
            va.push(A::mk(xs[i].0, xs[i].1));
            vb.push(A::mk(xs[i].0, xs[i].1));
        }
        let a = self.g.w.create_entities(k).attach::<A, _>(va).into_ids();
        let b = self.p.create_entities(k).attach::<A, _>(vb).into_ids();
        check((a.start == b.start) & (a.end == b.end), DIFF_ID);
        for e in un(b.start)..un(b.end) {
            assume(e <= N);
            self.live[e] = true;
            if e > self.n {
                self.n = e
            }
        }
    }
    fn val<X: Comp>(&mut self) -> (u32, u32) {
        (self.g.m.serial(X::K), X::fresh())
    }
    fn att<X: Comp>(&mut self, e: usize) {
        let (s, v) = self.val::<X>();
        let a = attempt(|| self.g.w.attach_component(eid(e), X::mk(s, v)));
        let b = attempt(|| self.p.attach_component(eid(e), X::mk(s, v)));
        check(a.is_some() == b.is_some(), DIFF_PANIC);
    }
    fn det<X: Comp>(&mut self, e: usize) {
        let a = attempt(|| self.g.w.detach_component::<X>(eid(e)));
        let b = attempt(|| self.p.detach_component::<X>(eid(e)));
        check(a.is_some() == b.is_some(), DIFF_PANIC);
        if let (Some(a), Some(b)) = (a, b) {
            check(a.is_some() == b.is_some(), DIFF_DETACH);
            if let (Some(a), Some(b)) = (a, b) {
                check(a.s() == b.s(), DIFF_DETACH);
                check(a.v() == b.v(), DIFF_DETACH);
                cover(21);
            }
        }
    }
    fn remove(&mut self, e: usize) {
        let a = attempt(|| self.g.w.remove_entity(eid(e)));
        let b = attempt(|| self.p.remove_entity(eid(e)));
        check(a.is_some() == b.is_some(), DIFF_PANIC);
        self.live[e] = false;
    }
    fn living(&self) -> usize {
        (1..=self.n).filter(|&e| self.live[e]).count()
    }
    fn nth(&self, i: usize) -> usize {
        (1..=self.n).filter(|&e| self.live[e]).nth(i).unwrap_or_else(|| fail(9001))
    }
    fn op(&mut self, types: usize) {
        let l = self.living();
        let c = pick(2 * types * l + l + 2);
        if c < 2 * types * l {
            let e = self.nth(c % l);
            match c / l {
                0 => self.att::<A>(e),
                1 => self.det::<A>(e),
                2 => self.att::<B>(e),
                3 => self.det::<B>(e),
                4 => self.att::<C>(e),
                _ => self.det::<C>(e),
            }
        } else if c < 2 * types * l + l {
            let e = self.nth(c - 2 * types * l);
            self.remove(e);
        } else if c == 2 * types * l + l {
            self.create();
        } else {
            self.batch(2);
        }
    }
    fn reads<X: Comp>(&self) {
        for e in self.ids() {
            let a = self.g.w.entity_component_read::<X>(eid(e));
            let b = self.p.entity_component_read::<X>(eid(e));
            check(a.is_some() == b.is_some(), DIFF_READ);
            if let (Some(a), Some(b)) = (a, b) {
                check(a.s() == b.s(), DIFF_READ);
                check(a.v() == b.v(), DIFF_READ);
                log(e as u64, a.v() as u64);
            }
        }
        let a = self.g.w.components_read::<X>().map(|g| g.count());
        let b = self.p.components_read::<X>().map(|g| g.count());
        check(a == b, DIFF_COUNT);
    }
    fn compare(&self) {
        for e in self.ids() {
            let a = self.g.w.exist(eid(e));
            check(a == self.p.exist(eid(e)), DIFF_EXIST);
            check(a == self.g.w.entity(eid(e)).is_some(), DIFF_EXIST);
        }
        self.reads::<A>();
        self.reads::<B>();
        self.reads::<C>();
        let (g, p) = (&self.g.w, &self.p);
        same::<&A>(g, p);
        same::<&mut B>(g, p);
        same::<&C>(g, p);
        same::<(&A, &B)>(g, p);
        same::<(&B, &mut A, &C)>(g, p);
        same::<(&A, Without<&B>)>(g, p);
        same::<(Without<(&A, &C)>, &B)>(g, p);
        cover(1);
    }
}
struct Items {
    n: usize,
    id: [usize; 16],
    x: [[(u32, u32); 5]; 16],
}
fn collect<'a, Q>(w: &'a World) -> Items
where
    Q: Queryable<'a>,
    Q::Item: Probe,
{
    let mut r = Items { n: 0, id: [0; 16], x: [[(0, 0); 5]; 16] };
    let mut q = w.query::<Q>();
    while let Some((id, it)) = q.next_with_id() {
        assume(r.n < 16);
        r.id[r.n] = un(id);
        it.parts(&mut r.x[r.n], &mut 0);
        r.n += 1;
    }
    r
}
fn same<'a, Q>(g: &'a World, p: &'a World)
where
    Q: Queryable<'a>,
    Q::Item: Probe,
{
    let a = collect::<Q>(g);
    let b = collect::<Q>(p);
    check(a.n == b.n, DIFF_QUERY);
    // every item of the one is an item of the other, each used once
    let mut used = [false; 16];
    for i in 0..a.n {
        let mut at = 16;
        for j in 0..b.n {
            if !used[j] && a.id[i] == b.id[j] {
                at = j;
                break;
            }
        }
        check(at < 16, DIFF_QUERY);
        used[at] = true;
        for k in 0..5 {
            check(a.x[i][k].0 == b.x[at][k].0, DIFF_ITEM);
            check(a.x[i][k].1 == b.x[at][k].1, DIFF_ITEM);
        }
    }
}

/// groups of `set` made at a symbolic point of a history: arrangements, then `k` operations
#[no_mangle]
pub extern "C-unwind" fn h_c12(n: u64, set: u64, k: u64, types: u64) {
    let mut t = Two { g: S::new(), p: world(), n: 0, live: [false; N + 2], few: [0; 12] };
    t.g.regs(3);
    t.p.register::<A>().register::<B>().register::<C>();
    let n = n as usize;
    for _ in 0..n {
        t.create();
    }
    let at = pick(3 + (k > 0) as usize);
    if at == 0 {
        groups(&mut t.g, set as usize);
    }
    for round in 0..2 {
        let mut left = [1, 2, 3, 4, 5, 6, 7, 8];
        let mut c = n;
        while c > 0 {
            let i = pick(c + 1);
            if i == c {
                break;
            }
            if round == 0 {
                t.att::<A>(left[i]);
            } else {
                t.att::<B>(left[i]);
            }
            left[i] = left[c - 1];
            c -= 1;
        }
        if types > 2 && round == 0 {
            t.att::<C>(n);
            t.att::<C>(1);
        }
        if at == 1 + round {
            groups(&mut t.g, set as usize);
        }
    }
    for i in 0..k {
        t.op(types as usize);
        if at == 3 && i == 0 {
            groups(&mut t.g, set as usize);
        }
    }
    t.compare();
}

/// making a group alters nothing: every view before and after
#[no_mangle]
pub extern "C-unwind" fn h_c12_make(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut t = Two { g: S::new(), p: world(), n: 0, live: [false; N + 2], few: [0; 12] };
    t.g.regs(3);
    t.p.register::<A>().register::<B>().register::<C>();
    let n = n as usize;
    for _ in 0..n {
        t.create();
    }
    for e in 1..=n {
        t.att::<C>(e);
    }
    for round in 0..2 {
        let mut left = [1, 2, 3, 4, 5, 6, 7, 8];
        let mut c = n;
        while c > 0 {
            let i = pick(c + 1);
            if i == c {
                break;
            }
            if round == 0 {
                t.att::<A>(left[i]);
            } else {
                t.att::<B>(left[i]);
            }
            left[i] = left[c - 1];
            c -= 1;
        }
    }
    match pick(9) {
        0 => t.g.group(FULL_AB),
        1 => t.g.group(PART_AB),
        2 => t.g.group(NON_AB),
        3 => t.g.group(FULL_BA),
        4 => t.g.group(PART_BA),
        5 => t.g.group(NON_BA),
        6 => t.g.group(PART_CA),
        7 => t.g.group(FULL_BC),
        _ => t.g.group(NON_AC),
    }
    t.compare();
}

/// owners far apart
#[no_mangle]
pub extern "C-unwind" fn h_c12_far(n: u64, mode: u64, set: u64, k: u64) {
    let mut t = Two { g: S::new(), p: world(), n: 0, live: [false; N + 2], few: [0; 12] };
    t.g.regs(3);
    t.p.register::<A>().register::<B>().register::<C>();
    let n = n as usize;
    let ids = t.g.far(n, mode as usize);
    let r = t.p.create_entities(n).into_ids();
    check((un(r.start) == 1) & (un(r.end) == n + 1), DIFF_ID);
    t.n = n;
    let mut c = 0;
    for e in ids {
        t.live[e] = true;
        for f in [e, e + 1, e.max(2) - 1] {
            t.few[c] = f;
            c += 1;
        }
    }
    t.few[9] = 1;
    t.few[10] = n;
    t.few[11] = n - 1;
    let early = pick(2) == 0;
    if early {
        groups(&mut t.g, set as usize);
    }
    for e in ids {
        t.att::<A>(e);
    }
    t.att::<B>(ids[2]);
    t.att::<B>(ids[0]);
    t.att::<C>(ids[1]);
    if !early {
        groups(&mut t.g, set as usize);
    }
    for _ in 0..k {
        let c = pick(12);
        let e = ids[c % 3];
        if t.live[e] {
            match c / 3 {
                0 => t.det::<A>(e),
                1 => t.att::<B>(e),
                2 => t.det::<B>(e),
                _ => t.remove(e),
            }
        }
    }
    t.compare();
}
