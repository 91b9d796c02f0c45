//! C19: every value is dropped exactly once.
use crate::m::{code, eid, Comp, M, N};
use crate::m::{A, B};
use crate::xs::*;
use xecs::*;

const MAX: usize = 512;
static mut DROPS: [u32; MAX] = [0; MAX];
static mut ZDROPS: u32 = 0;

/// what a value is made of
trait Q: Send + Sync + 'static {
    fn new(id: usize) -> Self;
    fn id(&self) -> usize;
    fn ok(&self) -> bool;
}
/// owns memory, so that dropping it twice is a double free
struct Boxed {
    id: usize,
    b: Box<u32>,
}
impl Q for Boxed {
    fn new(id: usize) -> Self {
        Boxed { id, b: Box::new(id as u32) }
    }
    fn id(&self) -> usize {
        self.id
    }
    fn ok(&self) -> bool {
        *self.b == self.id as u32
    }
}
/// the same, large
struct Large {
    v: Boxed,
    pad: [u64; 24],
}
impl Q for Large {
    fn new(id: usize) -> Self {
        Large { v: Boxed::new(id), pad: [id as u64; 24] }
    }
    fn id(&self) -> usize {
        self.v.id
    }
    fn ok(&self) -> bool {
        self.v.ok() && self.pad[0] == self.v.id as u64 && self.pad[23] == self.v.id as u64
    }
}
/// one byte
struct Byte(u8);
impl Q for Byte {
    fn new(id: usize) -> Self {
        assume(id < 256);
        Byte(id as u8)
    }
    fn id(&self) -> usize {
        self.0 as usize
    }
    fn ok(&self) -> bool {
        true
    }
}
/// over-aligned
#[repr(align(64))]
struct Wide(Boxed);
impl Q for Wide {
    fn new(id: usize) -> Self {
        Wide(Boxed::new(id))
    }
    fn id(&self) -> usize {
        self.0.id
    }
    fn ok(&self) -> bool {
        self.0.ok() && self as *const _ as usize % 64 == 0
    }
}
/// knows when it is dropped
struct H<const K: usize, P: Q>(P);
impl<const K: usize, P: Q> Drop for H<K, P> {
    fn drop(&mut self) {
        unsafe { DROPS[self.0.id()] += 1 }
    }
}
impl<const K: usize, P: Q> H<K, P> {
    fn new(id: usize) -> Self {
        H(P::new(id))
    }
}
/// zero-sized, with a destructor
struct Y;
impl Drop for Y {
    fn drop(&mut self) {
        unsafe { ZDROPS += 1 }
    }
}

struct L<P: Q> {
    p: std::marker::PhantomData<P>,
    w: World,
    /// what each entity and each resource owns, 0: nothing
    own: [[usize; N]; 2],
    ex: [bool; N],
    n: usize,
    res: [usize; 2],
    /// values so far, and how often each must have been dropped by now
    next: usize,
    exp: [u32; MAX],
    z: [bool; N],
    zexp: u32,
}
impl<P: Q> L<P> {
    fn new() -> L<P> {
        L {
            p: std::marker::PhantomData,
            w: World::new(),
            own: [[0; N]; 2],
            ex: [false; N],
            n: 0,
            res: [0; 2],
            next: 1,
            exp: [0; MAX],
            z: [false; N],
            zexp: 0,
        }
    }
    fn val<const K: usize>(&mut self) -> H<K, P> {
        let i = self.next;
        assume(i < MAX);
        self.next += 1;
        H::new(i)
    }
    fn check(&self) {
        for i in 1..self.next {
            check(unsafe { DROPS[i] } == self.exp[i], code::DROPS);
        }
        check(unsafe { ZDROPS } == self.zexp, code::DROPS);
    }
    fn lose(&mut self, k: usize, e: usize) {
        let i = self.own[k][e];
        if i != 0 {
            self.exp[i] += 1;
        }
        self.own[k][e] = 0;
    }
    fn att<const K: usize>(&mut self, e: usize) {
        let v = self.val::<K>();
        self.lose(K, e);
        self.own[K][e] = v.0.id();
        self.w.attach_component(eid(e), v);
    }
    fn det<const K: usize>(&mut self, e: usize) {
        let r = self.w.detach_component::<H<K, P>>(eid(e));
        let i = self.own[K][e];
        check(r.is_some() == (i != 0), code::DETACH_PRESENCE);
        if let Some(v) = r {
            check(v.0.id() == i, code::DETACH_SERIAL);
            check(v.0.ok(), code::DETACH_VALUE);
            // handed back, not dropped
            self.check();
            self.exp[i] += 1;
            drop(v);
            cover(21);
        }
        self.own[K][e] = 0;
    }
    fn remove(&mut self, e: usize) {
        self.lose(0, e);
        self.lose(1, e);
        if self.z[e] {
            self.z[e] = false;
            self.zexp += 1;
        }
        self.ex[e] = false;
        self.w.remove_entity(eid(e));
    }
    fn create(&mut self) -> usize {
        let e = self.w.create_entity().into_id().get();
        assume(e < N);
        self.ex[e] = true;
        if e > self.n {
            self.n = e
        }
        e
    }
    fn batch(&mut self, n: usize, twice: bool) {
        let mut v: Vec<H<0, P>> = Vec::with_capacity(8);
        let first = self.next;
        for _ in 0..n {
            v.push(self.val::<0>());
        }
        let h = self.w.create_entities(n).attach::<H<0, P>, _>(v);
        let mut now = first;
        let h = if twice {
            let mut v: Vec<H<0, P>> = Vec::with_capacity(8);
            now = self.next;
            for i in 0..n {
                v.push(H::new(self.next));
                self.next += 1;
                self.exp[first + i] += 1;
            }
            h.attach::<H<0, P>, _>(v)
        } else {
            h
        };
        let r = h.into_ids();
        for i in 0..n {
            let e = r.start.get() + i;
            assume(e < N);
            self.ex[e] = true;
            self.own[0][e] = now + i;
            if e > self.n {
                self.n = e
            }
        }
    }
    fn write(&mut self, e: usize) {
        let i = self.next;
        self.next += 1;
        let g = self.w.entity_component_write::<H<0, P>>(eid(e));
        let had = self.own[0][e] != 0;
        check(g.is_some() == had, code::READ_PRESENCE);
        match g {
            Some(mut g) => {
                *g = H::new(i);
                self.exp[self.own[0][e]] += 1;
                self.own[0][e] = i;
            }
            None => self.exp[i] = 0,
        }
    }
    fn living(&self) -> usize {
        (1..=self.n).filter(|&e| self.ex[e]).count()
    }
    fn nth(&self, i: usize) -> usize {
        (1..=self.n).filter(|&e| self.ex[e]).nth(i).unwrap_or_else(|| fail(9001))
    }
    fn finish(mut self) {
        self.check();
        for e in 1..=self.n {
            self.lose(0, e);
            self.lose(1, e);
            if self.z[e] {
                self.zexp += 1;
            }
        }
        for k in 0..2 {
            if self.res[k] != 0 {
                self.exp[self.res[k]] += 1;
            }
        }
        let w = std::mem::replace(&mut self.w, World::new());
        drop(w);
        self.check();
        cover(1);
    }
}

/// every arrangement of H<0, P>, then a history of `k` arbitrary operations
#[no_mangle]
pub extern "C-unwind" fn h_c19(n: u64, k: u64, heap: u64, what: u64) {
    match what {
        0 => c19::<Boxed>(n, k, heap),
        1 => c19::<Large>(n, k, heap),
        2 => c19::<Byte>(n, k, heap),
        _ => c19::<Wide>(n, k, heap),
    }
}
fn c19<P: Q>(n: u64, k: u64, heap: u64) {
    let live = heap_live();
    let mut l = L::<P>::new();
    l.w.register::<H<0, P>>().register::<H<1, P>>().register::<Y>();
    let n = n as usize;
    for _ in 0..n {
        l.create();
    }
    let mut left = [1, 2, 3, 4, 5, 6, 7, 8];
    let mut c = n;
    while c > 0 {
        let i = pick(c + 1);
        if i == c {
            break;
        }
        l.att::<0>(left[i]);
        left[i] = left[c - 1];
        c -= 1;
    }
    l.att::<1>(1);
    for _ in 0..k {
        let m = l.living();
        let c = pick(7 * m + 6);
        if c >= 7 * m {
            match c - 7 * m {
                0 => {
                    l.create();
                }
                1 => l.batch(2, false),
                2 => l.batch(2, true),
                3 => {
                    let v = l.val::<0>();
                    if l.res[0] != 0 {
                        l.exp[l.res[0]] += 1;
                    }
                    l.res[0] = v.0.id();
                    l.w.register_resource(v);
                }
                4 => {
                    let i = l.next;
                    l.next += 1;
                    if let Some(mut g) = l.w.resource_write::<H<0, P>>() {
                        l.exp[l.res[0]] += 1;
                        l.res[0] = i;
                        *g = H::new(i);
                    }
                }
                _ => {
                    let v = l.val::<1>();
                    if l.res[1] != 0 {
                        l.exp[l.res[1]] += 1;
                    }
                    l.res[1] = v.0.id();
                    l.w.register_resource(v);
                }
            }
        } else {
            let e = l.nth(c % m);
            match c / m {
                0 => l.att::<0>(e),
                1 => l.det::<0>(e),
                2 => l.att::<1>(e),
                3 => l.det::<1>(e),
                4 => l.remove(e),
                5 => l.write(e),
                _ => {
                    if l.z[e] {
                        l.zexp += 1;
                    }
                    l.z[e] = true;
                    l.w.attach_component(eid(e), Y);
                }
            }
        }
        l.check();
    }
    l.finish();
    if heap != 0 {
        check(heap_live() == live, code::HEAP);
    }
}

/// values handed to operations that panic are dropped once as well
#[no_mangle]
pub extern "C-unwind" fn h_c19_refused(what: u64, _b: u64, _c: u64, _d: u64) {
    match what {
        0 => c19_refused::<Boxed>(),
        1 => c19_refused::<Large>(),
        2 => c19_refused::<Byte>(),
        _ => c19_refused::<Wide>(),
    }
}
fn c19_refused<P: Q>() {
    let mut l = L::<P>::new();
    l.w.register::<H<0, P>>();
    let e = l.create();
    l.att::<0>(e);
    match pick(5) {
        0 => {
            let v = l.val::<0>();
            let id = EntityId::new(sym(64, 2, u64::MAX) as usize).unwrap();
            let r = attempt(|| l.w.attach_component(id, v));
            check(r.is_none(), code::PANIC_MISSING);
            l.exp[l.next - 1] += 1;
        }
        1 => {
            let v = l.val::<1>();
            let r = attempt(|| l.w.attach_component(eid(e), v));
            check(r.is_none(), code::PANIC_MISSING);
            l.exp[l.next - 1] += 1;
        }
        2 => {
            let n = pick(4);
            let mut v: Vec<H<0, P>> = Vec::with_capacity(4);
            for _ in 0..n {
                v.push(l.val::<0>());
            }
            let m = pick(4);
            assume(n != m);
            let first = l.next - n;
            let r = attempt(|| {
                l.w.create_entities(m).attach::<H<0, P>, _>(v);
            });
            check(r.is_none(), code::PANIC_MISSING);
            for i in 0..n {
                l.exp[first + i] += 1;
            }
        }
        3 => {
            let mut v: Vec<H<1, P>> = Vec::with_capacity(4);
            v.push(l.val::<1>());
            v.push(l.val::<1>());
            let r = attempt(|| {
                l.w.create_entities(2).attach::<H<1, P>, _>(v);
            });
            check(r.is_none(), code::PANIC_MISSING);
            l.exp[l.next - 1] += 1;
            l.exp[l.next - 2] += 1;
        }
        _ => {
            let id = EntityId::new(sym(64, 2, u64::MAX) as usize).unwrap();
            let r = attempt(|| l.w.detach_component::<H<0, P>>(id));
            check(r.is_none(), code::PANIC_MISSING);
            let r = attempt(|| l.w.remove_entity(id));
            check(r.is_none(), code::PANIC_MISSING);
        }
    }
    l.check();
    l.att::<0>(e);
    l.check();
    l.finish();
}

/// many entities: growing moves values and drops none
#[no_mangle]
pub extern "C-unwind" fn h_c19_wide(n: u64, what: u64, _c: u64, _d: u64) {
    match what {
        0 => c19_wide::<Boxed>(n),
        1 => c19_wide::<Large>(n),
        2 => c19_wide::<Byte>(n),
        _ => c19_wide::<Wide>(n),
    }
}
fn c19_wide<P: Q>(n: u64) {
    let live = heap_live();
    let mut l = L::<P>::new();
    l.w.register::<H<0, P>>().register::<H<1, P>>().register::<Y>();
    for _ in 0..n {
        l.create();
    }
    let n = n as usize;
    for e in 1..=n {
        l.att::<0>(n + 1 - e);
    }
    for e in 1..=n / 2 {
        l.att::<1>(e * 2);
    }
    l.check();
    let e = l.nth(pick(l.living()));
    match pick(4) {
        0 => l.remove(e),
        1 => l.det::<0>(e),
        2 => l.att::<1>(e),
        _ => l.att::<0>(e),
    }
    l.check();
    let e = l.nth([0, n / 2, l.living() - 1][pick(3)]);
    l.remove(e);
    l.finish();
    check(heap_live() == live, code::HEAP);
}

/// owners far apart; all of it twice, so that room is reused
#[no_mangle]
pub extern "C-unwind" fn h_c19_far(n: u64, k: u64, what: u64, _d: u64) {
    match what {
        0 => c19_far::<Boxed>(n, k),
        1 => c19_far::<Large>(n, k),
        2 => c19_far::<Byte>(n, k),
        _ => c19_far::<Wide>(n, k),
    }
}
fn c19_far<P: Q>(n: u64, k: u64) {
    let live = heap_live();
    let mut l = L::<P>::new();
    l.w.register::<H<0, P>>().register::<H<1, P>>().register::<Y>();
    let n = n as usize;
    let r = l.w.create_entities(n).into_ids();
    assume((r.start.get() == 1) & (r.end.get() == n + 1));
    for e in 1..=n {
        l.ex[e] = true;
    }
    l.n = n;
    let e = 2 + pick(n - 2);
    let ids = [[e, 1, n], [n, e, 1], [1, e, e], [e, n, e]][pick(4)];
    for e in ids {
        l.att::<0>(e);
    }
    l.att::<1>(ids[1]);
    l.check();
    for _ in 0..k {
        let c = pick(6);
        let e = ids[c % 2];
        if l.ex[e] {
            match c / 2 {
                0 => l.remove(e),
                1 => l.det::<0>(e),
                _ => l.att::<0>(e),
            }
        }
        l.check();
    }
    l.finish();
    check(heap_live() == live, code::HEAP);
}

#[allow(unused)]
fn unused(_: A, _: B, _: M) {
    let _ = A::K;
}
