//! Crossing histories: clients move and share handles between threads wherever the compiler lets
//! them, with items that may cross only in part. The compiler's verdict is asked per handle type;
//! the simulator then does what was allowed and watches for races and for items used away from home.
use crate::fam::{Fam, SimArc, SimRc};
use crate::ops::{lib_ok, Op};
use crate::world::{probe, soft, Pr, HK};
use simrt::arena;
use simrt::rt::{rt, NT, VC};
use std::marker::PhantomData;

struct Rec { home: usize, wt: usize, we: u32, rd: [u32; NT], dead: bool }
static mut ITEMS: Vec<Rec> = Vec::new();
const CLASS: [&str; 4] = ["may be sent and shared", "may be sent but not shared", "may be shared but not sent", "may neither be sent nor shared"];

fn create() -> u32 {
    let old = arena::lib_off();
    let r = rt();
    let id = unsafe { ITEMS.push(Rec { home: r.cur, wt: r.cur, we: r.epoch(), rd: [0; NT], dead: false }); ITEMS.len() as u32 - 1 };
    arena::lib_restore(old);
    id
}
/// One access to item `id` of class `class`: by exclusive ownership, or through a reference.
fn access(id: u32, class: usize, excl: bool) {
    let old = arena::lib_off();
    let r = rt();
    if r.active {
        r.yield_point(if excl { 31 } else { 30 });
        let n = unsafe { ITEMS.len() };
        if id as usize >= n { r.violate("garbage-drop", "an item that never existed is used".into()); }
        let it = unsafe { &mut ITEMS[id as usize] };
        if it.dead { r.violate("double-drop", "an item is used after its destruction".into()); }
        probe(Pr::CrossUses);
        let (may_send, may_share) = (class & 2 == 0, class & 1 == 0);
        let c = r.cur;
        if c != it.home && ((excl && !may_send) || (!may_send && !may_share)) {
            soft("cross-home", format!("an item that {} was {} by task {c} although task {} created it", CLASS[class], if excl { "owned or destroyed" } else { "read" }, it.home));
        }
        // through a shared reference, an item that may not be shared still changes its own state
        let write = excl || !may_share;
        let unordered = !r.hb(it.wt, it.we) || (write && (0..NT).any(|t| !r.hb(t, it.rd[t])));
        if unordered {
            soft("cross-race", format!("task {c} {} an item that {} while another task uses it, with nothing ordering the two", if excl { "takes or destroys" } else { "looks at" }, CLASS[class]));
        }
        if write { it.wt = c; it.we = r.epoch(); } else { it.rd[c] = r.epoch(); }
        r.tick();
    }
    arena::lib_restore(old);
}
macro_rules! class { ($t:ident, $n:expr, $ph:ty, $($send:tt)*) => {
    pub struct $t(u32, PhantomData<$ph>);
    $($send)*
    impl CItem for $t {
        const CLASS: usize = $n;
        fn make() -> Self { $t(create(), PhantomData) }
        fn look(&self) { access(self.0, $n, false) }
        fn own(&mut self) { access(self.0, $n, true) }
    }
    impl Clone for $t { fn clone(&self) -> Self { self.look(); Self::make() } }
    impl Drop for $t { fn drop(&mut self) { access(self.0, $n, true); let r = rt(); if r.active { unsafe { ITEMS[self.0 as usize].dead = true; } } } }
} }
pub trait CItem: Clone + 'static { const CLASS: usize; fn make() -> Self; fn look(&self); fn own(&mut self); }
class!(C0, 0, (), );
class!(C1, 1, std::cell::Cell<u8>, );
class!(C2, 2, *const u8, unsafe impl Sync for C2 {});
class!(C3, 3, *const u8, );

struct Ask<T: ?Sized>(PhantomData<T>);
trait Refused { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> Refused for Ask<T> {}
impl<T: ?Sized + Send> Ask<T> { const SEND: bool = true; }
impl<T: ?Sized + Sync> Ask<T> { const SYNC: bool = true; }
macro_rules! verdicts { ($m:ident, $S:ident, $M:ident, $I:ident, $P:ident, $Q:ident) => { {
    use rc_slice_sim::$m as l;
    macro_rules! row { ($t:ident) => { [
        (<Ask<l::$S<$t>>>::SEND, <Ask<l::$S<$t>>>::SYNC), (<Ask<l::WeakSlice<$t>>>::SEND, <Ask<l::WeakSlice<$t>>>::SYNC), (<Ask<l::$M<$t>>>::SEND, <Ask<l::$M<$t>>>::SYNC),
        (<Ask<l::$I<$t>>>::SEND, <Ask<l::$I<$t>>>::SYNC), (<Ask<l::$P<$t>>>::SEND, <Ask<l::$P<$t>>>::SYNC), (<Ask<l::$Q<$t>>>::SEND, <Ask<l::$Q<$t>>>::SYNC)] } }
    [row!(C0), row!(C1), row!(C2), row!(C3)]
} } }
static VERDICTS: [[[(bool, bool); 6]; 4]; 2] = [
    verdicts!(arc, ArcSlice, ArcSliceMut, ArcSliceMutIter, ArcSliceParts, ArcSliceMutParts),
    verdicts!(rc, RcSlice, RcSliceMut, RcSliceMutIter, RcSliceParts, RcSliceMutParts),
];

enum H<F: Fam, T: CItem> { S(F::S<T>), W(F::W<T>), M(F::M<T>), I(F::I<T>), P(F::P<T>), Q(F::Q<T>), Gone }
impl<F: Fam, T: CItem> H<F, T> {
    fn kind(&self) -> HK { match self { H::S(_) => HK::S, H::W(_) => HK::W, H::M(_) => HK::M, H::I(_) => HK::I, H::P(_) => HK::P, H::Q(_) => HK::Q, H::Gone => HK::W } }
    fn boxed(self) -> Box<dyn X> { Box::new(self) }
}
fn look_all<T: CItem>(s: &[T], k: u32) { if s.is_empty() { return; } for j in 0..1 + k as usize % 2 { s[(k as usize / 2 + j) % s.len()].look(); } }

/// What a client can do with a handle.
trait X {
    fn kind(&self) -> HK;
    fn class(&self) -> usize;
    fn arc(&self) -> bool;
    /// with a shared reference
    fn look(&self, k: u32) -> Option<Box<dyn X>>;
    /// with ownership
    fn step(&mut self, k: u32) -> Option<Box<dyn X>>;
    fn close(self: Box<Self>);
    fn verdict(&self) -> (bool, bool) { VERDICTS[!self.arc() as usize][self.class()][self.kind() as usize] }
    /// must the handle be allowed to cross, given what its items may do?
    fn entitled(&self) -> (bool, bool) {
        let c = self.class();
        if !self.arc() { return (false, false); }
        match self.kind() { HK::S | HK::W | HK::P => (c == 0, c == 0), _ => (c & 2 == 0, c & 1 == 0) }
    }
    fn name(&self) -> String { format!("{} {} whose items {}", if self.arc() { "atomic" } else { "non-atomic" }, ["slice", "weak slice", "exclusive slice", "item iterator", "parts iterator", "exclusive parts iterator"][self.kind() as usize], CLASS[self.class()]) }
}
impl<F: Fam, T: CItem> X for H<F, T> {
    fn kind(&self) -> HK { H::kind(self) }
    fn class(&self) -> usize { T::CLASS }
    fn arc(&self) -> bool { F::ARC }
    fn look(&self, k: u32) -> Option<Box<dyn X>> {
        let v = k / 8;
        match self {
            H::S(s) => match k % 8 {
                0 | 1 => lib_ok(|| F::s_clone(s)).map(|x| H::<F, T>::S(x).boxed()),
                2 => lib_ok(|| F::s_left(s)).map(|x| H::<F, T>::S(x).boxed()),
                3 => lib_ok(|| F::s_right(s)).map(|x| H::<F, T>::S(x).boxed()),
                4 => lib_ok(|| F::s_downgrade(s)).map(|x| H::<F, T>::W(x).boxed()),
                _ => { look_all(F::s_slice(s, v), v); None }
            },
            H::W(w) => if k % 8 < 6 { lib_ok(|| F::w_upgrade(w)).flatten().map(|x| H::<F, T>::S(x).boxed()) } else { lib_ok(|| F::w_clone(w)).map(|x| H::<F, T>::W(x).boxed()) },
            H::M(m) => if k % 8 == 0 { lib_ok(|| F::m_clone(m)).map(|x| H::<F, T>::M(x).boxed()) } else { look_all(F::m_slice(m, v), v); None },
            H::I(i) => { look_all(F::i_slice(i), v); None }
            H::P(p) => if k % 8 < 2 { lib_ok(|| F::p_clone(p)).map(|x| H::<F, T>::P(x).boxed()) } else { look_all(F::p_slice(p), v); None },
            H::Q(q) => { look_all(F::q_slice(q), v); None }
            H::Gone => None,
        }
    }
    fn step(&mut self, k: u32) -> Option<Box<dyn X>> {
        let v = k / 8;
        let own = |s: &mut [T]| if !s.is_empty() { let n = s.len(); s[v as usize % n].own() };
        let n = [1usize, 2, 4][v as usize % 3];
        match self {
            H::S(s) => match k % 8 {
                0 => return lib_ok(|| F::s_split_left(s)).map(|x| H::<F, T>::S(x).boxed()),
                1 => return lib_ok(|| F::s_split_right(s)).map(|x| H::<F, T>::S(x).boxed()),
                2 => { if let Some(Some(x)) = lib_ok(|| F::s_get_mut(s).map(|x| x as *mut [T])) { own(unsafe { &mut *x }); } return None; }
                3 | 4 => { if let H::S(s) = std::mem::replace(self, H::Gone) { match lib_ok(move || F::s_into_mut(s, v)) { Some(Ok(m)) => *self = H::M(m), Some(Err(s)) => *self = H::S(s), None => {} } } return None; }
                5 => { if let H::S(s) = std::mem::replace(self, H::Gone) { if let Some(p) = lib_ok(move || F::s_parts(s, n)) { *self = H::P(p); } } return None; }
                _ => {}
            },
            H::M(m) => match k % 8 {
                0 => return lib_ok(|| F::m_split_left(m)).map(|x| H::<F, T>::M(x).boxed()),
                1 => return lib_ok(|| F::m_split_right(m)).map(|x| H::<F, T>::M(x).boxed()),
                2 => { own(F::m_slice_mut(m, v)); return None; }
                3 => { if let H::M(m) = std::mem::replace(self, H::Gone) { if let Some(s) = lib_ok(move || F::m_into_immut(m, v)) { *self = H::S(s); } } return None; }
                4 => { if let H::M(m) = std::mem::replace(self, H::Gone) { if let Some(i) = lib_ok(move || F::m_into_iter(m)) { *self = H::I(i); } } return None; }
                5 => { if let H::M(m) = std::mem::replace(self, H::Gone) { if let Some(q) = lib_ok(move || F::m_parts(m, n)) { *self = H::Q(q); } } return None; }
                _ => {}
            },
            H::I(i) => match k % 8 {
                0 => { let l = F::i_slice(i).len(); let at = v as usize % (l + 1); return lib_ok(|| F::i_from(i, at)).map(|x| H::<F, T>::I(x).boxed()); }
                1..=3 => { if let Some(Some(mut t)) = lib_ok(|| if v & 1 == 0 { F::i_next(i) } else { F::i_back(i) }) { t.own(); } return None; }
                4 => { own(F::i_slice_mut(i)); return None; }
                _ => {}
            },
            H::P(p) => if k % 8 < 5 { return lib_ok(|| if v & 1 == 0 { F::p_next(p) } else { F::p_back(p) }).flatten().map(|x| H::<F, T>::S(x).boxed()); },
            H::Q(q) => match k % 8 {
                0..=3 => return lib_ok(|| if v & 1 == 0 { F::q_next(q) } else { F::q_back(q) }).flatten().map(|x| H::<F, T>::M(x).boxed()),
                4 => { own(F::q_slice_mut(q)); return None; }
                _ => {}
            },
            _ => {}
        }
        X::look(self, v)
    }
    fn close(self: Box<Self>) { let h = *self; lib_ok(move || drop(h)); }
}

#[derive(Default)]
struct State { own: Vec<Vec<Box<dyn X>>>, mail: Vec<(VC, usize, Box<dyn X>)>, shared: Vec<(Box<dyn X>, VC)> }
static mut STATE: Option<State> = None;
fn st() -> &'static mut State { unsafe { STATE.get_or_insert_with(|| State { own: (0..NT).map(|_| vec![]).collect(), ..State::default() }) } }

/// Forgets what an abandoned run left behind.
pub fn reset() { unsafe { if let Some(s) = STATE.take() { std::mem::forget(s); } ITEMS.clear(); } }

fn make<F: Fam, T: CItem>(n: usize, how: u32) -> Option<Box<dyn X>> {
    let v: Vec<T> = { arena::tag_buffers(true); let mut v = Vec::with_capacity(n); arena::tag_buffers(false); for _ in 0..n { v.push(T::make()); } v };
    if n > 0 { if let Some(i) = arena::find(v.as_ptr() as usize) { arena::adopt(i); } }
    if how & 1 == 0 { lib_ok(move || F::s_new(v, how / 2)).map(|s| H::<F, T>::S(s).boxed()) } else { lib_ok(move || F::m_new(v, how / 2)).map(|m| H::<F, T>::M(m).boxed()) }
}
pub fn new(op: Op) {
    crate::world::w().mem_off = true;
    let c = rt().cur;
    if st().own[c].len() > 12 { return; }
    let n = 1 + op.a as usize % 6;
    let how = op.c as u32;
    let x = match (op.b % 3 == 2, op.b / 3 % 6) {
        (false, 0) => make::<SimArc, C0>(n, how), (false, 1 | 4) => make::<SimArc, C1>(n, how), (false, 2 | 5) => make::<SimArc, C2>(n, how), (false, _) => make::<SimArc, C3>(n, how),
        (_, 0 | 4) => make::<SimRc, C0>(n, how), (_, 1) => make::<SimRc, C1>(n, how), (_, 2) => make::<SimRc, C2>(n, how), (_, _) => make::<SimRc, C3>(n, how),
    };
    if let Some(x) = x { st().own[c].push(x); }
}
fn keep(x: Option<Box<dyn X>>) { let c = rt().cur; if let Some(x) = x { if st().own[c].len() > 16 { x.close(); } else { st().own[c].push(x); } } }
pub fn step(op: Op) {
    let c = rt().cur;
    let n = st().own[c].len();
    if n == 0 { return; }
    let i = op.a as usize % n;
    let mut x = st().own[c].remove(i);
    let y = if op.c & 1 == 0 { x.look(op.b as u32) } else { x.step(op.b as u32) };
    st().own[c].push(x);
    keep(y);
}
pub fn drop_one(op: Op) {
    let c = rt().cur;
    let n = st().own[c].len();
    if n == 0 { return; }
    let x = st().own[c].remove(op.a as usize % n);
    x.close();
}
/// Tries to hand a handle to another task, or to share it by reference.
pub fn cross(op: Op) {
    let r = rt();
    let c = r.cur;
    let n = st().own[c].len();
    if n == 0 { return; }
    let mut i = op.a as usize % n;
    let share = op.b % 2 == 1 && c == 0 && st().shared.len() < 4;
    if op.c % 3 != 0 { if let Some(j) = (0..n).map(|d| (i + d) % n).find(|&j| { let v = st().own[c][j].verdict(); if share { v.1 } else { v.0 } }) { i = j; } }
    let (send, sync) = st().own[c][i].verdict();
    let (may_send, may_sync) = st().own[c][i].entitled();
    let name = st().own[c][i].name();
    // sharing by reference needs an owner that outlives the others: the first task, before they start
    if share {
        if !sync {
            probe(Pr::CrossDenied);
            if may_sync { soft("cross-denied", format!("the {name} cannot be shared between threads")); }
            return;
        }
        probe(Pr::CrossShared);
        let x = st().own[c].remove(i);
        st().shared.push((x, *r.vc()));
        r.tick();
    } else {
        if !send {
            probe(Pr::CrossDenied);
            if may_send { soft("cross-denied", format!("the {name} cannot be sent to another thread")); }
            return;
        }
        probe(Pr::CrossSent);
        let x = st().own[c].remove(i);
        st().mail.push((*r.vc(), c, x));
        r.tick();
    }
}
pub fn receive(op: Op) {
    let r = rt();
    let n = st().mail.len();
    if n == 0 { return; }
    let c = r.cur;
    let mut i = op.a as usize % n;
    if op.b % 4 != 0 { if let Some(j) = (0..n).map(|d| (i + d) % n).find(|&j| st().mail[j].1 != c) { i = j; } }
    let (v, from, x) = st().mail.remove(i);
    if from != c { probe(Pr::CrossTask); }
    r.tasks[c].vc.join(&v);
    st().own[c].push(x);
}
pub fn shared_use(op: Op) {
    let r = rt();
    let n = st().shared.len();
    if n == 0 { return; }
    let i = op.a as usize % n;
    let (x, v) = { let e = &st().shared[i]; (&*e.0 as *const dyn X, e.1) };
    let c = r.cur;
    r.tasks[c].vc.join(&v);
    if c != 0 { probe(Pr::SharedRef); }
    // shared handles stay where they are until the run ends
    let y = unsafe { &*x }.look(op.b as u32);
    keep(y);
}
/// A task that ends drops what it owns.
pub fn task_end() {
    let c = rt().cur;
    while let Some(x) = st().own[c].pop() { x.close(); }
}
/// After the join: undelivered handles go to the first task, shared ones back to their owner.
pub fn run_end() {
    if unsafe { STATE.is_none() } { return; }
    let s = st();
    for (v, _, x) in std::mem::take(&mut s.mail) { rt().tasks[0].vc.join(&v); s.own[0].push(x); }
    while let Some((x, _)) = { let s = st(); s.shared.pop() } { x.close(); }
    task_end();
}
