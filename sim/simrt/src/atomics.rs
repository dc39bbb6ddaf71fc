//! Atomics with an operational weak-memory model: per location the modification order with the
//! release clock of every store; loads may return any value coherence and happens-before permit.
use crate::arena;
use crate::rt::*;
use std::cell::{Cell, UnsafeCell};
pub use std::sync::atomic::Ordering;

#[derive(Clone, Copy)]
pub struct StoreRec { pub val: u64, pub rel: VC, pub writer: u8, pub epoch: u32 }
const HIST: usize = 8;
pub struct Loc {
    stores: Vec<StoreRec>, // the most recent HIST stores
    base: u32,             // modification-order index of stores[0]
    reads: [Vec<(u32, u32)>; NT], // per task: (epoch, index) whenever the index read grew
    floor: u32,            // nobody may read below this index any more
    last_sc: u32,
}
impl Loc {
    fn new() -> Loc { Loc { stores: Vec::with_capacity(4), base: 0, reads: Default::default(), floor: 0, last_sc: 0 } }
    fn reset(&mut self, val: u64) {
        self.stores.clear();
        self.base = 0;
        self.floor = 0;
        self.last_sc = 0;
        for r in &mut self.reads { r.clear(); }
        self.stores.push(StoreRec { val, rel: VC::default(), writer: 0, epoch: 0 });
    }
    #[inline]
    fn latest(&self) -> u32 { self.base + self.stores.len() as u32 - 1 }
    fn push(&mut self, s: StoreRec) {
        if self.stores.len() == HIST { self.stores.remove(0); self.base += 1; }
        self.stores.push(s);
    }
    fn note_read(&mut self, t: usize, epoch: u32, idx: u32) {
        let v = &mut self.reads[t];
        match v.last() { Some(&(_, i)) if i >= idx => {} _ => {
            if v.len() >= 12 { let (_, i) = v.remove(0); if i > self.floor { self.floor = i; } }
            v.push((epoch, idx));
        } }
    }
    /// Lowest index task t may still read.
    fn min_readable(&self, t: usize, vc: &VC, sc: bool) -> u32 {
        let mut f = self.floor.max(self.base);
        if let Some(&(_, i)) = self.reads[t].last() { f = f.max(i); }
        for u in 0..NT {
            if u == t { continue; }
            for &(e, i) in self.reads[u].iter().rev() { if e <= vc.0[u] { f = f.max(i); break; } }
        }
        for k in (0..self.stores.len()).rev() {
            let s = &self.stores[k];
            if s.epoch <= vc.0[s.writer as usize] { f = f.max(self.base + k as u32); break; }
        }
        if sc { f = f.max(self.last_sc); }
        f
    }
}

#[repr(C)]
pub struct Cell64 { id: Cell<u64>, cur: UnsafeCell<u64> }
unsafe impl Send for Cell64 {}
unsafe impl Sync for Cell64 {}

fn is_acq(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
fn is_rel(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }

impl Cell64 {
    pub const fn new(v: u64) -> Cell64 { Cell64 { id: Cell::new(0), cur: UnsafeCell::new(v) } }
    /// exclusive access; the next atomic access starts a fresh history
    pub fn get_mut(&mut self) -> &mut u64 { self.id.set(0); unsafe { &mut *self.cur.get() } }
    pub fn peek(&self) -> u64 { unsafe { *self.cur.get() } }

    fn loc<'a>(&self, r: &'a mut Rt) -> (&'a mut Loc, u32) {
        let id = self.id.get();
        if (id >> 32) as u32 == r.gen && (id as u32 as usize) < r.nlocs {
            let i = id as u32;
            return (&mut r.locs[i as usize], i);
        }
        let i = r.nlocs;
        r.nlocs += 1;
        if r.locs.len() <= i { r.locs.push(Loc::new()); }
        r.locs[i].reset(self.peek());
        self.id.set((r.gen as u64) << 32 | i as u64);
        (&mut r.locs[i], i as u32)
    }
    fn apply_acquire(r: &mut Rt, rel: &VC, ord: Ordering) {
        let t = &mut r.tasks[r.cur];
        if is_acq(ord) { t.vc.join(rel); } else { t.acq_pend.join(rel); }
    }
    pub fn load(&self, ord: Ordering) -> u64 {
        assert!(!matches!(ord, Ordering::Release | Ordering::AcqRel), "there is no such thing as a release load");
        let r = rt();
        if !r.active { return self.peek(); }
        let old = arena::lib_off();
        r.yield_point(1);
        r.stat[S_LOADS] += 1;
        if r.solo { arena::lib_restore(old); return self.spin_check_solo(r); }
        let (l, i) = self.loc(r);
        let n = l.stores.len();
        let latest = l.latest();
        let mut idx = latest;
        if n > 1 && !r.fair() {
            let back = r.choose_stale(|r| {
                let l = &r.locs[i as usize];
                latest - l.min_readable(r.cur, &r.tasks[r.cur].vc, ord == Ordering::SeqCst).min(latest)
            });
            idx = latest - back;
        }
        let c = r.cur;
        let ep = r.tasks[c].vc.0[c];
        let l = &mut r.locs[i as usize];
        l.note_read(c, ep, idx);
        let s = l.stores[(idx - l.base) as usize];
        Self::apply_acquire(r, &s.rel, ord);
        let t = &mut r.tasks[c];
        if t.last_load == (i, idx) { t.spin += 1; } else { t.last_load = (i, idx); t.spin = 0; }
        arena::lib_restore(old);
        s.val
    }
    fn spin_check_solo(&self, _r: &mut Rt) -> u64 { self.peek() }
    fn write(&self, r: &mut Rt, i: u32, val: u64, ord: Ordering, prev: Option<VC>) {
        let c = r.cur;
        let t = &r.tasks[c];
        let mut rel = if is_rel(ord) { t.vc } else { t.rel_fence };
        if let Some(p) = prev { rel.join(&p); }
        let ep = t.vc.0[c];
        let l = &mut r.locs[i as usize];
        l.push(StoreRec { val, rel, writer: c as u8, epoch: ep });
        let idx = l.latest();
        if ord == Ordering::SeqCst { l.last_sc = idx; }
        l.note_read(c, ep, idx);
        unsafe { *self.cur.get() = val; }
        r.tick();
    }
    pub fn store(&self, val: u64, ord: Ordering) {
        assert!(!matches!(ord, Ordering::Acquire | Ordering::AcqRel), "there is no such thing as an acquire store");
        let r = rt();
        if !r.active { unsafe { *self.cur.get() = val; } return; }
        let old = arena::lib_off();
        r.yield_point(2);
        r.stat[S_STORES] += 1;
        if r.solo { unsafe { *self.cur.get() = val; } } else {
            let (_, i) = self.loc(r);
            self.write(r, i, val, ord, None);
            r.tasks[r.cur].spin = 0;
            r.tasks[r.cur].last_load = (!0, 0);
        }
        arena::lib_restore(old);
    }
    /// Read-modify-write: `f` maps the current value to the new one, or `None` to fail.
    pub fn rmw(&self, ord: Ordering, fail: Ordering, weak: bool, f: impl FnOnce(u64) -> Option<u64>) -> Result<u64, u64> {
        let r = rt();
        if !r.active {
            let v = self.peek();
            return match f(v) { Some(n) => { unsafe { *self.cur.get() = n; } Ok(v) } None => Err(v) };
        }
        let old = arena::lib_off();
        r.yield_point(3);
        r.stat[S_RMW] += 1;
        let res;
        if r.solo {
            let v = self.peek();
            res = match f(v) { Some(n) => { unsafe { *self.cur.get() = n; } Ok(v) } None => Err(v) };
        } else {
            let (l, i) = self.loc(r);
            let s = *l.stores.last().unwrap();
            let latest = l.latest();
            let spur = weak && { let p = r.cfg.spur_pct * 10; r.fault(K_SPUR, p, 1) > 0 };
            let new = if spur { None } else { f(s.val) };
            let c = r.cur;
            match new {
                Some(n) => {
                    Self::apply_acquire(r, &s.rel, ord);
                    self.write(r, i, n, ord, Some(s.rel));
                    let t = &mut r.tasks[c];
                    if n == s.val { t.spin += 1; } else { t.spin = 0; t.last_load = (!0, 0); }
                    res = Ok(s.val);
                }
                None => {
                    let ep = r.tasks[c].vc.0[c];
                    r.locs[i as usize].note_read(c, ep, latest);
                    Self::apply_acquire(r, &s.rel, fail);
                    r.stat[S_CASFAIL] += 1;
                    let t = &mut r.tasks[c];
                    if t.last_load == (i, latest) { t.spin += 1; } else { t.last_load = (i, latest); t.spin = 0; }
                    res = Err(s.val);
                }
            }
        }
        arena::lib_restore(old);
        res
    }
    /// Drops all history: used when the location becomes exclusively owned through other means.
    pub fn reset(&self) { self.id.set(0); }
}

pub fn fence(ord: Ordering) {
    let r = rt();
    if !r.active { return; }
    let old = arena::lib_off();
    r.yield_point(4);
    let c = r.cur;
    if is_acq(ord) { let p = r.tasks[c].acq_pend; r.tasks[c].vc.join(&p); }
    if ord == Ordering::SeqCst {
        let s = r.sc_clock;
        r.tasks[c].vc.join(&s);
        let v = r.tasks[c].vc;
        r.sc_clock.join(&v);
    }
    if is_rel(ord) { r.tasks[c].rel_fence = r.tasks[c].vc; r.tick(); }
    arena::lib_restore(old);
}
pub fn spin_hint() {
    let r = rt();
    if !r.active { return; }
    let old = arena::lib_off();
    let c = r.cur;
    r.tasks[c].spin += 1;
    r.yield_point(5);
    arena::lib_restore(old);
}
