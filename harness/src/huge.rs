//! Worlds of more entities than a byte, or two, can number: every entity owns components, a few
//! around the thresholds are operated on, and everything is looked at afterwards.
use crate::m::{code, must_panic};
use crate::xs::*;
use xecs::group::*;
use xecs::query::*;
use xecs::*;

#[derive(Clone, Copy)]
pub struct P {
    s: u32,
    v: u32,
}
#[derive(Clone, Copy)]
pub struct Q {
    v: u32,
    s: u32,
}


fn id(e: usize) -> EntityId {
    EntityId::new(e).unwrap()
}

pub struct Huge {
    w: World,
    n: usize,
    ex: Vec<bool>,
    /// serial numbers of the components of each entity, 0: none
    cur: [Vec<u32>; 2],
    /// the entity a serial number was given to
    own: Vec<u32>,
    /// payloads that do not follow from the serial number
    odd: Vec<(u32, u32)>,
}
fn plain(s: u32) -> u32 {
    s.wrapping_mul(2654435761)
}
impl Huge {
    fn fresh(&mut self, k: usize, e: usize) -> (u32, u32) {
        let s = self.own.len() as u32;
        let v = v32();
        self.own.push(e as u32);
        self.odd.push((s, v));
        self.cur[k][e] = s;
        (s, v)
    }
    fn payload(&self, s: u32) -> u32 {
        for x in &self.odd {
            if x.0 == s {
                return x.1;
            }
        }
        plain(s)
    }
    fn batch(&mut self, n: usize, both: bool) {
        let first = self.n + 1;
        let mut ps = Vec::with_capacity(n);
        let mut qs = Vec::with_capacity(n);
        for e in first..first + n {
            self.ex.push(true);
            for k in 0..2 {
                if k == 1 && !both {
                    self.cur[1].push(0);
                    break;
                }
                let s = self.own.len() as u32;
                self.own.push(e as u32);
                self.cur[k].push(s);
                if k == 0 {
                    ps.push(P { s, v: plain(s) })
                } else {
                    qs.push(Q { s, v: plain(s) })
                }
            }
        }
        let mut h = self.w.create_entities(n).attach::<P, _>(ps);
        if both {
            h = h.attach::<Q, _>(qs);
        }
        let r = h.into_ids();
        check((r.start.get() == first) & (r.end.get() == first + n), code::CREATE_RANGE);
        self.n += n;
    }
    fn group(&mut self, set: u64) {
        match set {
            1 => self.w.make_group(full_owning::<P, Q>()),
            2 => self.w.make_group(partial_owning::<P, Q>()),
            3 => self.w.make_group(non_owning::<P, Q>()),
            4 => {
                self.w.make_group(partial_owning::<Q, P>());
                self.w.make_group(non_owning::<P, Q>());
            }
            _ => {}
        }
    }
    fn op(&mut self, c: usize, e: usize) {
        if !self.ex[e] {
            return;
        }
        match c {
            0 => {
                let r = self.w.detach_component::<P>(id(e));
                check(r.is_some() == (self.cur[0][e] != 0), code::DETACH_PRESENCE);
                if let Some(x) = r {
                    check(x.s == self.cur[0][e], code::DETACH_SERIAL);
                    check(x.v == self.payload(x.s), code::DETACH_VALUE);
                }
                self.cur[0][e] = 0;
            }
            1 => {
                let r = self.w.detach_component::<Q>(id(e));
                check(r.is_some() == (self.cur[1][e] != 0), code::DETACH_PRESENCE);
                if let Some(x) = r {
                    check(x.s == self.cur[1][e], code::DETACH_SERIAL);
                    check(x.v == self.payload(x.s), code::DETACH_VALUE);
                }
                self.cur[1][e] = 0;
            }
            2 => {
                self.w.remove_entity(id(e));
                self.ex[e] = false;
                self.cur[0][e] = 0;
                self.cur[1][e] = 0;
            }
            3 => {
                let (s, v) = self.fresh(0, e);
                self.w.attach_component(id(e), P { s, v });
            }
            _ => {
                let (s, v) = self.fresh(1, e);
                self.w.attach_component(id(e), Q { s, v });
            }
        }
    }
    fn create(&mut self) -> usize {
        let e = self.w.create_entity().into_id().get();
        check((e >= 1) & (e <= self.n + 1), code::CREATE_LIVING);
        let e = fork(e);
        if e <= self.n {
            check(!self.ex[e], code::CREATE_LIVING);
            self.ex[e] = true;
        } else {
            self.n = e;
            self.ex.push(true);
            self.cur[0].push(0);
            self.cur[1].push(0);
        }
        e
    }
    /// the entity a component belongs to
    fn part(&self, k: usize, s: u32, v: u32) -> usize {
        check((s as usize) < self.own.len(), code::ITEM_NO_ENTITY);
        let e = self.own[s as usize] as usize;
        check(e != 0 && self.cur[k][e] == s, code::ITEM_NO_ENTITY);
        check(v == self.payload(s), code::ITEM_VALUE);
        e
    }
    fn edges(&self) -> Vec<usize> {
        let mut r = Vec::with_capacity(32);
        for e in [1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, self.n - 1, self.n, self.n + 1] {
            if e <= self.n + 1 {
                r.push(e);
            }
        }
        r
    }
}
trait Parts {
    /// the entity all parts belong to
    fn owner(&self, h: &Huge) -> usize;
}
macro_rules! part {
    ($($t:ty: $k:expr),*) => { $(
        impl<'a> Parts for &'a $t { fn owner(&self, h: &Huge) -> usize { h.part($k, self.s, self.v) } }
        impl<'a> Parts for &'a mut $t { fn owner(&self, h: &Huge) -> usize { h.part($k, self.s, self.v) } }
    )* };
}
part!(P: 0, Q: 1);
impl<X: Parts, Y: Parts> Parts for (X, Y) {
    fn owner(&self, h: &Huge) -> usize {
        let e = self.0.owner(h);
        check(self.1.owner(h) == e, code::ITEM_MIXED);
        e
    }
}
fn walk<'a, X>(h: &'a Huge, exact: bool, sat: fn(&Huge, usize) -> bool)
where
    X: Queryable<'a>,
    X::Item: Parts,
{
    let mut total = 0;
    for e in 1..=h.n {
        total += sat(h, e) as usize;
    }
    let mut seen = vec![false; h.n + 2];
    let mut q = h.w.query::<X>();
    let mut got = 0;
    loop {
        if got % 64 == 0 || got + 2 > total {
            let (lo, hi) = q.size_hint();
            check(lo <= total - got, code::HINT_LO);
            check(hi.map_or(true, |h| h >= total - got), code::HINT_HI);
            check(!exact || lo == total - got && hi == Some(total - got), code::HINT_EXACT);
        }
        let e = if got % 3 == 0 {
            match q.next() {
                None => break,
                Some(it) => it.owner(h),
            }
        } else {
            match q.next_with_id() {
                None => break,
                Some((i, it)) => {
                    let e = it.owner(h);
                    check(i.get() == e, code::ITEM_ID);
                    e
                }
            }
        };
        check(got < total, code::ITEM_EXTRA);
        check(sat(h, e), code::ITEM_NOT_SAT);
        check(!seen[e], code::ITEM_TWICE);
        seen[e] = true;
        got += 1;
    }
    check(got == total, code::ITEM_MISSING);
    for e in h.edges() {
        match q.from_id(id(e)) {
            Some(it) => {
                check(e <= h.n && sat(h, e), code::LOOK_WRONG);
                check(it.owner(h) == e, code::LOOK_OWNER);
            }
            None => check(e > h.n || !sat(h, e), code::LOOK_WRONG),
        }
    }
}
fn p(h: &Huge, e: usize) -> bool {
    h.cur[0][e] != 0
}
fn q(h: &Huge, e: usize) -> bool {
    h.cur[1][e] != 0
}
fn pq(h: &Huge, e: usize) -> bool {
    h.cur[0][e] != 0 && h.cur[1][e] != 0
}
fn p_not_q(h: &Huge, e: usize) -> bool {
    h.cur[0][e] != 0 && h.cur[1][e] == 0
}

/// `n` entities with two components each, 3 with one; groups `set` made before or after; `k`
/// operations on entities whose numbers or places are next to a threshold; `what` is looked at:
/// 1 reads, 2 guards, 4 queries, 8 tuples, 16 exclusions, 32 the groups, 64 existence
#[no_mangle]
pub extern "C-unwind" fn h_huge(n: u64, set: u64, what: u64, k: u64) {
    let n = n as usize;
    let mut h = Huge {
        w: World::new(),
        n: 0,
        ex: vec![false],
        cur: [vec![0], vec![0]],
        own: vec![0],
        odd: Vec::new(),
    };
    h.w.register::<P>();
    h.w.register::<Q>();
    h.w.register::<u8>();
    let early = set != 0 && pick(2) == 1;
    if early {
        h.group(set);
    }
    h.batch(n, true);
    h.batch(3, false);
    if !early {
        h.group(set);
    }
    let base = if n > 65536 { 65536 } else { 256 };
    for i in 0..k {
        let e = match if i == 0 { pick(4) } else { pick(3) } {
            0 => base,
            1 => base + 1,
            2 => n + 1,
            _ => 1,
        };
        if i == 0 {
            h.op(pick(3), e);
        } else {
            h.op(pick(5), e);
        }
    }
    let e = h.create();
    h.op(3, e);
    h.op(4, e);
    h.op(4, base);
    // places over the threshold
    h.op(0, base - 1);
    if what & 1 != 0 {
        for e in h.edges() {
            let r = h.w.entity_component_read::<P>(id(e));
            check(r.is_some() == (e <= h.n && p(&h, e)), code::READ_PRESENCE);
            if let Some(x) = r {
                check(h.part(0, x.s, x.v) == e, code::READ_SERIAL);
            }
            let r = h.w.entity_component_write::<Q>(id(e));
            check(r.is_some() == (e <= h.n && q(&h, e)), code::READ_PRESENCE);
            if let Some(x) = r {
                check(h.part(1, x.s, x.v) == e, code::READ_SERIAL);
            }
        }
    }
    if what & 2 != 0 {
        let g = h.w.components_read::<P>().unwrap_or_else(|| fail(code::READ_PRESENCE));
        let mut total = 0;
        for e in 1..=h.n {
            total += p(&h, e) as usize;
            check(g.exist(id(e)) == p(&h, e), code::READ_PRESENCE);
            if let Some(x) = g.get(id(e)) {
                check(h.part(0, x.s, x.v) == e, code::READ_SERIAL);
            }
        }
        check((g.count() == total) & (g.data().len() == total), code::COUNT);
        let mut sum = 0usize;
        for x in g.data() {
            sum += h.part(0, x.s, x.v);
        }
        let mut exp = 0;
        for e in 1..=h.n {
            exp += if p(&h, e) { e } else { 0 };
        }
        check(sum == exp, code::ITEM_TWICE);
    }
    if what & 4 != 0 {
        walk::<&P>(&h, true, p);
        walk::<&mut Q>(&h, true, q);
    }
    if what & 8 != 0 {
        walk::<(&P, &mut Q)>(&h, false, pq);
        walk::<(&mut Q, &P)>(&h, false, pq);
    }
    if what & 16 != 0 {
        walk::<(&P, Without<&Q>)>(&h, false, p_not_q);
        walk::<(Without<&Q>, &mut P)>(&h, false, p_not_q);
        walk::<(&P, Without<&u8>)>(&h, false, p);
    }
    if what & 32 != 0 {
        match set {
            1 => {
                walk::<FullOwning<&P, &Q>>(&h, true, pq);
                walk::<FullOwning<&mut P, &mut Q>>(&h, true, pq);
                walk::<FullOwning<&mut P, &Q>>(&h, true, pq);
                walk::<FullOwning<&P, &mut Q>>(&h, true, pq);
            }
            2 => {
                walk::<PartialOwning<&P, &Q>>(&h, true, pq);
                walk::<PartialOwning<&mut P, &mut Q>>(&h, true, pq);
                walk::<PartialOwning<&mut P, &Q>>(&h, true, pq);
                walk::<PartialOwning<&P, &mut Q>>(&h, true, pq);
            }
            3 => {
                walk::<NonOwning<&P, &Q>>(&h, true, pq);
                walk::<NonOwning<&mut P, &mut Q>>(&h, true, pq);
                walk::<NonOwning<&mut P, &Q>>(&h, true, pq);
                walk::<NonOwning<&P, &mut Q>>(&h, true, pq);
            }
            4 => {
                walk::<PartialOwning<&Q, &P>>(&h, true, pq);
                walk::<NonOwning<&P, &Q>>(&h, true, pq);
            }
            _ => {}
        }
    }
    if what & 64 != 0 {
        for e in 1..=h.n + 1 {
            check(h.w.exist(id(e)) == (e <= h.n && h.ex[e]), code::EXIST);
        }
        let far = id(h.n + 1 + sym(8, 0, 255) as usize);
        must_panic(|| h.w.remove_entity(far));
    }
    cover(1);
}
