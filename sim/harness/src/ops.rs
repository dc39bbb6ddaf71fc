//! Interpreter: executes programs of operations against one family of handles and one element
//! type, inside simulated tasks, and tells the world what was returned.
use crate::cross;
use crate::fam::Fam;
use crate::item::Item;
use crate::world::{bad, probe, soft, w, Injected, Pr, HK, HS, IS, NONE};
use simrt::arena;
use simrt::rt::{rt, TState, NT, S_USER, VC};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op { pub code: u8, pub a: u16, pub b: u16, pub c: u16, pub uid: u32 }

macro_rules! opcodes { ($($name:ident $text:expr;)*) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy)] #[repr(u8)] enum OpE { $($name),* }
    $( pub const $name: u8 = OpE::$name as u8; )*
    pub const OP_NAMES: &[&str] = &[$($text),*];
} }
opcodes! {
    NEW_S "new_slice"; NEW_M "new_slice_mut"; COLLECT "collect"; CLONE "clone"; LEFT "clone_left"; RIGHT "clone_right"; SPLIT_L "split_off_left"; SPLIT_R "split_off_right";
    READ "read"; DROP_S "drop_slice"; DROP_W "drop_weak"; DROP_M "drop_slice_mut"; DROP_X "drop_iterator"; INTO_MUT "into_mut"; GET_MUT "get_mut"; DOWNGRADE "downgrade";
    UPGRADE "upgrade"; WCLONE "weak_clone"; M_SPLIT_L "mut_split_off_left"; M_SPLIT_R "mut_split_off_right"; INTO_IMMUT "into_immut"; M_WRITE "mut_write"; M_CLONE "mut_deep_clone";
    INTO_ITER "into_iter"; I_NEXT "iter_next"; I_BACK "iter_next_back"; I_FROM "iter_split_off_from"; I_TO "iter_split_off_to"; I_COUNT "iter_count"; I_WRITE "iter_write"; I_NTH "iter_nth";
    S_PARTS "split_into_parts"; P_NEXT "parts_next"; P_BACK "parts_next_back"; P_CLONE "parts_clone"; P_COUNT "parts_count";
    M_PARTS "mut_split_into_parts"; Q_NEXT "mut_parts_next"; Q_BACK "mut_parts_next_back"; Q_WRITE "mut_parts_write"; Q_COUNT "mut_parts_count";
    SEND "send_to_task"; RECV "receive"; PUBLISH "share_by_reference"; TAKE "unshare"; REND "rendezvous"; KILL "task_unwinds"; FORGET "mem_forget"; BADARG "bad_argument"; FRESHW "fresh_weak";
    DROPALL "drop_all"; PAUSE "pause"; DROPVAL "drop_item_value"; CONV_CYCLE "mutability_attempt";
    P_WALK "parts_walk"; Q_WALK "mut_parts_walk"; I_WALK "iter_walk";
    COMPARE "compare_hash_format"; PLAIN "plain_or_huge_history"; P_NTH "parts_nth"; Q_NTH "mut_parts_nth"; P_ALL "parts_for_each"; Q_ALL "mut_parts_for_each"; I_ALL "iter_for_each"; CLONE_FROM "clone_from"; WCLONE_FROM "weak_clone_from"; M_CLONE_FROM "mut_clone_from";
    X_NEW "crossing_new"; X_STEP "crossing_use"; X_DROP "crossing_drop"; X_CROSS "crossing_offer"; X_RECV "crossing_receive"; X_SHARED "crossing_shared_use";
}
pub fn op_name(c: u8) -> &'static str { OP_NAMES.get(c as usize).copied().unwrap_or("?") }
pub const NOPS: usize = X_SHARED as usize + 1;

pub enum Obj<F: Fam, T: Item> { S(F::S<T>), W(F::W<T>), M(F::M<T>), I(F::I<T>), P(F::P<T>), Q(F::Q<T>), V(T), Gone }
pub struct Entry<F: Fam, T: Item> { hid: u32, store: u32, obj: Obj<F, T>, users: u32, publ: VC, used: VC }
type Ent<F, T> = *mut Entry<F, T>;

#[derive(Clone, Debug)]
pub struct Case {
    pub fam: u8,
    pub item: u8,
    pub cfg: simrt::rt::Cfg,
    pub ntasks: usize,            // concurrent tasks including task 0
    pub progs: Vec<Vec<Op>>,      // 0: setup (alone), 1..=ntasks: concurrent part of task i-1, last: after the join
    pub fin_mode: u32,
    pub seed: u64,
}

pub struct Env<F: Fam, T: Item> {
    pools: Vec<Vec<Ent<F, T>>>,
    mail: Vec<Vec<(VC, usize, Ent<F, T>)>>,
    board: Vec<Ent<F, T>>,
    val: u32,
    ph: PhantomData<(F, T)>,
}
static mut ENV: *mut u8 = std::ptr::null_mut();
fn env<F: Fam, T: Item>() -> &'static mut Env<F, T> { unsafe { &mut *(ENV as *mut Env<F, T>) } }

/// Runs library code. Err(true) = a panic injected by the simulator came out, Err(false) = the library's own panic.
fn lib<R>(f: impl FnOnce() -> R) -> Result<R, bool> {
    let before = rt().tasks[rt().cur].unwinding;
    arena::lib_set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    arena::lib_set(false);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            rt().tasks[rt().cur].unwinding = before;
            let inj = p.is::<Injected>();
            drop(p);
            if let Some(fr) = w().frames[rt().cur].last_mut() { fr.panicked = true; }
            Err(inj)
        }
    }
}
/// For operations that must not panic on their own.
pub fn lib_ok<R>(f: impl FnOnce() -> R) -> Option<R> {
    match lib(f) {
        Ok(v) => Some(v),
        Err(true) => None,
        Err(false) => {
            let op = w().frames[rt().cur].last().map_or(0, |f| f.op);
            bad("unexpected-panic", format!("{} panicked: {}", op_name(op), rt().panic_msg));
        }
    }
}

pub fn part_range(start: usize, len: usize, n: usize, k: usize) -> (usize, usize) {
    let (mut a, mut l) = (start, len);
    let mut mask = n >> 1;
    while mask > 0 {
        if k & mask == 0 { l >>= 1; } else { a += l >> 1; l -= l >> 1; }
        mask >>= 1;
    }
    (a, l)
}
pub fn rem_range(start: usize, len: usize, n: usize, f: usize, b: usize) -> (usize, usize) {
    if f + b >= n { return (start, 0); }
    let (a, _) = part_range(start, len, n, f);
    let (c, l) = part_range(start, len, n, n - 1 - b);
    (a, c + l - a)
}
fn walk(mut node: u32, n: usize, k: usize) -> u32 {
    let mut mask = n >> 1;
    while mask > 0 { node = w().kid(node, (k & mask != 0) as usize); mask >>= 1; }
    node
}
fn kind_of<F: Fam, T: Item>(e: Ent<F, T>) -> Option<HK> {
    match unsafe { &(*e).obj } { Obj::S(_) => Some(HK::S), Obj::W(_) => Some(HK::W), Obj::M(_) => Some(HK::M), Obj::I(_) => Some(HK::I), Obj::P(_) => Some(HK::P), Obj::Q(_) => Some(HK::Q), _ => None }
}
fn s_of<F: Fam, T: Item>(e: Ent<F, T>) -> &'static F::S<T> { match unsafe { &(*e).obj } { Obj::S(s) => s, _ => unreachable!() } }
fn w_of<F: Fam, T: Item>(e: Ent<F, T>) -> &'static F::W<T> { match unsafe { &(*e).obj } { Obj::W(s) => s, _ => unreachable!() } }
fn take_obj<F: Fam, T: Item>(e: Ent<F, T>) -> Obj<F, T> { unsafe { std::mem::replace(&mut (*e).obj, Obj::Gone) } }
macro_rules! mutref { ($e:expr, $v:ident) => { match unsafe { &mut (*$e).obj } { Obj::$v(x) => x, _ => unreachable!() } } }
macro_rules! taken { ($e:expr, $v:ident) => { match take_obj($e) { Obj::$v(x) => x, _ => unreachable!() } } }

/// A hasher that remembers everything it was fed.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { let old = arena::lib_off(); self.0.push(b.len() as u8); self.0.extend_from_slice(b); arena::lib_restore(old); }
}

struct SrcIter<T: Item> { n: usize, i: usize, hint: u16, ph: PhantomData<T> }
impl<T: Item> Iterator for SrcIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let old = arena::lib_off();
        struct G(bool);
        impl Drop for G { fn drop(&mut self) { arena::lib_restore(self.0); } }
        let _g = G(old);
        let r = rt();
        r.yield_point(22);
        if self.i >= self.n { return None; }
        let c = r.cfg.cstall;
        if c > 0 { r.callback_stall(c); }
        let p = r.cfg.ipanic;
        if p > 0 && r.tasks[r.cur].unwinding == 0 && r.fault(simrt::rt::K_IPANIC, p, 1) > 0 {
            w().faulted = true;
            probe(Pr::IPanics);
            std::panic::panic_any(Injected);
        }
        crate::world::maybe_reenter(4);
        self.i += 1;
        let val = self.i as u32 * 7;
        let id = w().new_item(val, NONE);
        if let Some(f) = w().frames[r.cur].last_mut() { f.created.push(id); }
        Some(T::make(id, val))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let k = self.n - self.i;
        // only a hint: it may be useless, or wrong
        match self.hint % 8 { 0 | 2 | 4 | 6 => (k, Some(k)), 1 | 3 => (0, None), 5 => (k / 2, if k % 3 == 0 { Some(k / 2) } else { None }), _ => (k + 3, Some(k + 3)) }
    }
}

impl<F: Fam, T: Item> Env<F, T> {
    fn t(&self) -> usize { rt().cur }
    fn count(&self, k: HK) -> usize { self.pools[self.t()].iter().filter(|&&e| kind_of(e) == Some(k)).count() }
    fn nth(&self, k: HK, a: u16, free: bool) -> Option<usize> {
        let ok = |e: Ent<F, T>| kind_of(e) == Some(k) && (!free || unsafe { (*e).users == 0 });
        let p = &self.pools[self.t()];
        let n = p.iter().filter(|&&e| ok(e)).count();
        if n == 0 { return None; }
        let k = a as usize % n;
        p.iter().enumerate().filter(|(_, &e)| ok(e)).nth(k).map(|x| x.0)
    }
    fn take(&mut self, k: HK, a: u16) -> Option<Ent<F, T>> { let t = self.t(); let i = self.nth(k, a, true)?; Some(self.pools[t].remove(i)) }
    fn put(&mut self, e: Ent<F, T>) { let t = self.t(); self.pools[t].push(e); }
    fn entry(&mut self, hid: u32, obj: Obj<F, T>) -> Ent<F, T> {
        let store = if let Obj::V(_) = obj { NONE } else { w().handles[hid as usize].store };
        Box::into_raw(Box::new(Entry { hid, store, obj, users: 0, publ: VC::default(), used: VC::default() }))
    }
    fn add(&mut self, hid: u32, obj: Obj<F, T>) { let e = self.entry(hid, obj); self.put(e); }
    fn free(&mut self, e: Ent<F, T>) { unsafe { drop(Box::from_raw(e)); } }
    /// A handle usable by reference: from the own pool, or one shared by all tasks.
    fn by_ref(&mut self, k: HK, a: u16) -> Option<Ent<F, T>> {
        if a & 0x4000 != 0 {
            let c: Vec<Ent<F, T>> = self.board.iter().copied().filter(|&e| kind_of(e) == Some(k)).collect();
            if !c.is_empty() {
                let e = c[a as usize % c.len()];
                unsafe { (*e).users += 1; let p = (*e).publ; rt().tasks[rt().cur].vc.join(&p); }
                probe(Pr::SharedRef);
                return Some(e);
            }
        }
        let i = self.nth(k, a, false)?;
        let e = self.pools[self.t()][i];
        unsafe { (*e).users += 1; }
        Some(e)
    }
    fn done(&mut self, e: Ent<F, T>) { unsafe { (*e).users -= 1; let v = *rt().vc(); (*e).used.join(&v); rt().tick(); } }
    fn sid(&self, e: Ent<F, T>) -> (u32, u32) { unsafe { ((*e).hid, (*e).store) } }

    fn make_items(&mut self, n: usize, extra: usize) -> (Vec<T>, Vec<u32>) {
        arena::tag_buffers(true);
        let mut v: Vec<T> = Vec::with_capacity(n + extra);
        arena::tag_buffers(false);
        let mut ids = Vec::with_capacity(n);
        for _ in 0..n {
            self.val = self.val.wrapping_add(1);
            let id = w().new_item(self.val, NONE);
            v.push(T::make(id, self.val));
            ids.push(id);
        }
        (v, ids)
    }
    fn finish_new_s(&mut self, store: u32, s: F::S<T>, ids: &[u32]) {
        let base = F::s_slice(&s, 0).as_ptr() as usize;
        if F::s_slice(&s, 0).len() != ids.len() { bad("copy-mismatch", format!("a slice built from {} items has length {}", ids.len(), F::s_slice(&s, 0).len())); }
        w().fill_store(store, base, std::mem::size_of::<T>(), ids);
        let node = w().new_tree(store, 0, ids.len());
        let hid = w().h_new(HK::S, store, node, 0, ids.len(), "create");
        w().check_view(hid, F::s_slice(&s, 0), "wrong-view");
        self.add(hid, Obj::S(s));
    }
    fn finish_new_m(&mut self, store: u32, m: F::M<T>, ids: &[u32]) {
        let base = F::m_slice(&m, 0).as_ptr() as usize;
        if F::m_slice(&m, 0).len() != ids.len() { bad("copy-mismatch", format!("a slice built from {} items has length {}", ids.len(), F::m_slice(&m, 0).len())); }
        w().fill_store(store, base, std::mem::size_of::<T>(), ids);
        let hid = w().h_new(HK::M, store, NONE, 0, ids.len(), "create");
        w().check_view(hid, F::m_slice(&m, 0), "wrong-view-mut");
        self.add(hid, Obj::M(m));
    }
    fn view(&mut self, e: Ent<F, T>, how: u32) {
        let hid = unsafe { (*e).hid };
        match unsafe { &(*e).obj } {
            Obj::S(s) => w().check_view(hid, F::s_slice(s, how), "wrong-view"),
            Obj::M(m) => w().check_view(hid, F::m_slice(m, how), "wrong-view-mut"),
            Obj::I(i) => { w().check_view(hid, F::i_slice(i), "iter-view"); let n = w().handles[hid as usize].len; Self::chk_len("iter-len", F::i_len(i), n); }
            Obj::P(p) => { w().check_view(hid, F::p_slice(p), "parts-view"); let h = &w().handles[hid as usize]; Self::chk_len("parts-len", F::p_len(p), h.n - h.f - h.b); }
            Obj::Q(q) => { w().check_view(hid, F::q_slice(q), "mutparts-view"); let h = &w().handles[hid as usize]; Self::chk_len("mutparts-len", F::q_len(q), h.n - h.f - h.b); }
            Obj::V(t) => { let it = w().items[hid as usize]; if !t.matches(hid, it.val) { bad("iter-wrong", "an item handed out by value changed".into()); } }
            _ => {}
        }
    }
    fn chk_len(kind: &'static str, got: (usize, (usize, Option<usize>)), want: usize) {
        if got.0 != want || got.1 != (want, Some(want)) { bad(kind, format!("iterator reports length {} and size hint {:?} with {want} elements still to come", got.0, got.1)); }
    }
    fn drop_entry(&mut self, e: Ent<F, T>) {
        let (hid, store) = self.sid(e);
        if let Obj::V(_) = unsafe { &(*e).obj } {
            let o = take_obj(e);
            self.free(e);
            let t = self.t();
            self.view_val(&o, hid);
            w().harness_drop[t] += 1;
            drop(o);
            w().harness_drop[t] -= 1;
            return;
        }
        let code = match kind_of(e) { Some(HK::S) => DROP_S, Some(HK::W) => DROP_W, Some(HK::M) => DROP_M, _ => DROP_X };
        w().begin(code, &[store]);
        w().h_kill(hid);
        let o = take_obj(e);
        self.free(e);
        lib_ok(move || drop(o));
        w().h_dead(hid);
        w().end(0);
    }
    fn view_val(&self, o: &Obj<F, T>, id: u32) { if let Obj::V(t) = o { let it = w().items[id as usize]; if !t.matches(id, it.val) || (T::HASID && it.state != IS::Out) { bad("iter-wrong", "an item handed out by value changed".into()); } } }

    /// Must a mutability request on this handle succeed? (evaluated inside the operation)
    fn must_mut(&self, hid: u32, weak_matter: bool) -> bool {
        let ww = w();
        let h = &ww.handles[hid as usize];
        if h.len == 0 || !ww.sole_actor(h.store) { return false; }
        for &o in &ww.stores[h.store as usize].handles {
            if o == hid { continue; }
            let g = &ww.handles[o as usize];
            let rel = |n: u32| n != NONE && (ww.is_anc_or_self(n, h.node) || ww.is_anc_or_self(h.node, n));
            let ok = match g.kind {
                HK::W => !weak_matter || !rel(g.node),
                HK::S => if g.len == 0 { !rel(g.node) } else { g.start >= h.start + h.len || h.start >= g.start + g.len },
                HK::P => g.n == g.f + g.b || g.start > h.start + h.len || h.start > g.start + g.len,
                _ => g.len == 0 || g.start >= h.start + h.len || h.start >= g.start + g.len,
            };
            if !ok { return false; }
        }
        true
    }
    fn into_mut(&mut self, e: Ent<F, T>, how: u32) -> bool {
        let (hid, store) = self.sid(e);
        w().begin(INTO_MUT, &[store]);
        let must = self.must_mut(hid, false);
        let seq0 = w().stores[store as usize].opseq;
        w().h_busy(hid);
        let s = taken!(e, S);
        let res = lib_ok(move || F::s_into_mut(s, how));
        let mut granted = false;
        match res {
            Some(Ok(m)) => {
                probe(Pr::IntoOk);
                granted = true;
                let h = w().h(hid);
                h.kind = HK::M;
                h.node = NONE;
                unsafe { (*e).obj = Obj::M(m); }
                w().h_live(hid, "into_mut");
                w().check_items_live(hid, "into_mut");
                self.view(e, 0);
                if must { probe(Pr::IntoMust); }
                self.put(e);
            }
            Some(Err(s)) => {
                probe(Pr::IntoErr);
                unsafe { (*e).obj = Obj::S(s); }
                w().h_live(hid, "refused into_mut");
                let hid = unsafe { (*e).hid };
                w().check_items_live(hid, "refused into_mut");
                w().check_view(hid, F::s_slice(s_of(e), 0), "refused-changed");
                w().note_refusal(hid);
                if must && w().stores[store as usize].opseq == seq0 {
                    let h = &w().handles[hid as usize];
                    soft("refused-mut", format!("into_mut refused although [{}..{}] has no other handle and nobody else is active on the storage", h.start, h.start + h.len));
                }
                self.put(e);
            }
            None => { w().h_dead(hid); self.free(e); }
        }
        w().end(granted as u32);
        granted
    }
    fn get_mut(&mut self, e: Ent<F, T>, c: u16) -> bool {
        let (hid, store) = self.sid(e);
        w().begin(GET_MUT, &[store]);
        let must = self.must_mut(hid, true);
        let seq0 = w().stores[store as usize].opseq;
        let res = lib_ok(|| F::s_get_mut(mutref!(e, S)).map(|x| (x as *mut [T]) as *mut [T]));
        let mut granted = false;
        if let Some(r) = res {
            match r {
                Some(p) => {
                    granted = true;
                    probe(Pr::GetOk);
                    w().h(hid).borrowed = true;
                    w().check_overlap(hid, "get_mut");
                    w().check_items_live(hid, "get_mut");
                    let h = w().handles[hid as usize].clone();
                    if h.len > 0 {
                        for &o in &w().stores[store as usize].handles {
                            let g = &w().handles[o as usize];
                            if g.kind == HK::W && g.state == HS::Live && g.len > 0 && g.node != NONE && w().is_anc_or_self(h.node, g.node) {
                                soft("getmut-with-weak", format!("get_mut on [{}..{}] granted while a weak slice on [{}..{}] exists", h.start, h.start + h.len, g.start, g.start + g.len));
                            }
                        }
                    }
                    let sl = unsafe { &mut *p };
                    w().check_view(hid, sl, "wrong-view");
                    w().end(1);
                    if must { probe(Pr::GetMust); }
                    for k in 0..1 + (c % 4) as usize {
                        rt().yield_point(23);
                        probe(Pr::BorrowYield);
                        if h.len > 0 {
                            let i = k % h.len;
                            self.val = self.val.wrapping_add(1);
                            let v = self.val;
                            w().write(store, h.start + i, &mut sl[i], v);
                            rt().yield_point(24);
                            w().check_view(hid, sl, "wrong-view");
                        }
                    }
                    w().h(hid).borrowed = false;
                    self.put(e);
                    return true;
                }
                None => {
                    probe(Pr::GetErr);
                    w().check_view(hid, F::s_slice(s_of(e), 0), "refused-changed");
                    if must && w().stores[store as usize].opseq == seq0 {
                        let h = &w().handles[hid as usize];
                        soft("refused-mut", format!("get_mut refused although [{}..{}] has no other strong or weak handle and nobody else is active on the storage", h.start, h.start + h.len));
                    }
                }
            }
        }
        self.put(e);
        w().end(granted as u32);
        granted
    }
    fn upgrade(&mut self, a: u16) {
        let Some(e) = self.by_ref(HK::W, a) else { return };
        let (hid, store) = self.sid(e);
        let (node, start, len) = { let h = &w().handles[hid as usize]; (h.node, h.start, h.len) };
        w().begin(UPGRADE, &[store]);
        let s0 = w().seq;
        let judged = len > 0 || w().nodes[node as usize].root;
        let tree = w().nodes[node as usize].tree;
        let mut keep: Vec<u32> = vec![];
        let mut may = w().stores[store as usize].inflight > 1;
        for &o in &w().stores[store as usize].handles {
            let g = &w().handles[o as usize];
            if g.node == NONE || w().nodes[g.node as usize].tree != tree { continue; }
            if g.kind == HK::S && w().is_anc_or_self(g.node, node) { may = true; if g.state == HS::Live { keep.push(o); } }
            if g.kind == HK::P && g.n > g.f + g.b { may = true; }
        }
        let res = lib_ok(|| F::w_upgrade(w_of(e)));
        self.done(e);
        match res {
            Some(Some(s)) => {
                probe(Pr::UpSome);
                if judged && !may { soft("upgrade-dead", format!("upgrade of a weak slice on [{start}..{}] returned a slice although no shared slice on it or containing it was left", start + len)); }
                let n = w().h_new(HK::S, store, node, start, len, "upgrade");
                w().check_view(n, F::s_slice(&s, 0), "upgrade-wrong");
                self.add(n, Obj::S(s));
                w().end(1);
            }
            Some(None) => {
                probe(Pr::UpNone);
                if judged {
                    if !may { probe(Pr::MustNone); }
                    for k in keep {
                        let g = &w().handles[k as usize];
                        if g.state == HS::Live && g.kind == HK::S && g.last_consume < s0 {
                            let kind = if w().stores[store as usize].refused.contains(&g.node) { "refused-upgrade" } else { "upgrade-none" };
                            soft(kind, format!("upgrade of a weak slice on [{start}..{}] returned nothing although a shared slice on [{}..{}] lived throughout the call", start + len, g.start, g.start + g.len));
                        }
                    }
                }
                w().end(0);
            }
            None => w().end(2),
        }
        if judged && may { probe(Pr::MustSome); }
    }
    fn part_of_s(&mut self, e: Ent<F, T>, back: bool) -> Option<Ent<F, T>> {
        let (hid, store) = self.sid(e);
        let h = w().handles[hid as usize].clone();
        let rem = h.n - h.f - h.b;
        w().begin(if back { P_BACK } else { P_NEXT }, &[store]);
        w().h_touch(hid);
        let r = lib_ok(|| { let p = mutref!(e, P); if back { F::p_back(p) } else { F::p_next(p) } });
        let mut got = None;
        match r {
            Some(Some(s)) => {
                if rem == 0 { bad("parts-count", format!("a parts iterator over {} parts yields more than that", h.n)); }
                let k = if back { h.n - 1 - h.b } else { h.f };
                let (a, l) = part_range(h.ostart, h.olen, h.n, k);
                let node = walk(h.node, h.n, k);
                let hh = w().h(hid);
                if back { hh.b += 1 } else { hh.f += 1 }
                let (f, b) = (hh.f, hh.b);
                let (ra, rl) = rem_range(h.ostart, h.olen, h.n, f, b);
                let sid = w().h_new(HK::S, store, node, a, l, "parts");
                w().h_range(hid, ra, rl);
                w().check_view(sid, F::s_slice(&s, 0), "parts-view");
                let x = self.entry(sid, Obj::S(s));
                self.put(x);
                got = Some(x);
                self.view(e, 0);
                w().end(1);
            }
            Some(None) => {
                if rem > 0 { bad("parts-count", format!("a parts iterator over {} parts ended with {rem} parts still to come", h.n)); }
                probe(Pr::PartsDone);
                w().end(0);
            }
            None => w().end(2),
        }
        got
    }
    fn part_of_m(&mut self, e: Ent<F, T>, back: bool) -> Option<Ent<F, T>> {
        let (hid, store) = self.sid(e);
        let h = w().handles[hid as usize].clone();
        let rem = h.n - h.f - h.b;
        w().begin(if back { Q_BACK } else { Q_NEXT }, &[store]);
        let r = lib_ok(|| { let p = mutref!(e, Q); if back { F::q_back(p) } else { F::q_next(p) } });
        let mut got = None;
        match r {
            Some(Some(m)) => {
                if rem == 0 { bad("mutparts-count", format!("a parts iterator over {} parts yields more than that", h.n)); }
                let k = if back { h.n - 1 - h.b } else { h.f };
                let (a, l) = part_range(h.ostart, h.olen, h.n, k);
                let hh = w().h(hid);
                if back { hh.b += 1 } else { hh.f += 1 }
                let (f, b) = (hh.f, hh.b);
                let (ra, rl) = rem_range(h.ostart, h.olen, h.n, f, b);
                w().h_range(hid, ra, rl);
                let mid = w().h_new(HK::M, store, NONE, a, l, "parts");
                w().check_view(mid, F::m_slice(&m, 0), "mutparts-view");
                let x = self.entry(mid, Obj::M(m));
                self.put(x);
                got = Some(x);
                self.view(e, 0);
                w().end(1);
            }
            Some(None) => {
                if rem > 0 { bad("mutparts-count", format!("an exclusive parts iterator over {} parts ended with {rem} parts still to come", h.n)); }
                probe(Pr::MutPartsDone);
                w().end(0);
            }
            None => w().end(2),
        }
        got
    }
    fn iter_step(&mut self, e: Ent<F, T>, back: bool, keep: bool) {
        let (hid, store) = self.sid(e);
        let (a, n) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
        w().begin(if back { I_BACK } else { I_NEXT }, &[store]);
        let mut want = NONE;
        if n > 0 {
            let p = if back { a + n - 1 } else { a };
            want = w().moved_out(store, p);
            w().h_range(hid, if back { a } else { a + 1 }, n - 1);
        }
        let r = lib_ok(|| { let i = mutref!(e, I); if back { F::i_back(i) } else { F::i_next(i) } });
        match r {
            Some(Some(t)) => {
                if want == NONE { bad("iter-wrong", "an exhausted item iterator yields another item".into()); }
                let it = w().items[want as usize];
                if !t.matches(want, it.val) || (T::HASID && it.state != IS::Out) { bad("iter-wrong", format!("item iterator yielded something other than item {} in order", if back { a + n - 1 } else { a })); }
                self.view(e, 0);
                w().end(1);
                self.add(want, Obj::V(t));
                if !keep { let t = self.t(); let v = self.pools[t].pop().unwrap(); self.drop_entry(v); }
            }
            Some(None) => {
                if want != NONE { bad("iter-wrong", format!("item iterator ended with {n} items still to come")); }
                probe(Pr::IterDone);
                self.view(e, 0);
                w().end(0);
            }
            None => w().end(2),
        }
    }
    fn iter_nth(&mut self, e: Ent<F, T>, back: bool, k: usize) {
        let (hid, store) = self.sid(e);
        let (a, n) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
        w().begin(I_NTH, &[store]);
        let skip = k.min(n);
        let mut want = NONE;
        let tpos = if back { (a + n).wrapping_sub(1 + skip) } else { a + skip };
        if skip < n { want = w().moved_out(store, tpos); }
        let gone = skip + (skip < n) as usize;
        w().h_range(hid, if back { a } else { a + gone }, n - gone);
        let r = lib_ok(|| { let i = mutref!(e, I); if back { F::i_nth_back(i, k) } else { F::i_nth(i, k) } });
        match r {
            Some(Some(t)) => {
                if want == NONE || !t.matches(want, w().items[want as usize].val) { bad("iter-wrong", "nth yielded the wrong item".into()); }
                self.view(e, 0);
                w().end(1);
                self.add(want, Obj::V(t));
            }
            Some(None) => {
                if want != NONE { bad("iter-wrong", "nth ended early".into()); }
                self.view(e, 0);
                w().end(0);
            }
            None => {
                // a destructor panicked part way: continue from where the iterator says it is
                let m = F::i_len(mutref!(e, I)).0;
                if m > n { bad("iter-len", "iterator grew".into()); }
                if want != NONE {
                    // was the wanted item consumed? only if it lies in the consumed part
                    let consumed = n - m;
                    if consumed <= skip {
                        let ww = w();
                        ww.items[want as usize].state = IS::In(store, tpos as u32);
                        ww.out_count -= 1;
                        let st = &mut ww.stores[store as usize];
                        st.pos[tpos].live = true;
                        st.nlive += 1;
                    } else { bad("iter-wrong", "nth lost the item it should have returned".into()); }
                }
                w().h_range(hid, if back { a } else { a + n - m }, m);
                w().check_items_live(hid, "nth");
                self.view(e, 0);
                w().end(2);
            }
        }
    }

    pub fn exec(&mut self, op: Op, nested: bool) {
        let r = rt();
        if self.pools[r.cur].len() > 48 && matches!(op.code, NEW_S | NEW_M | COLLECT | CLONE | LEFT | RIGHT | DOWNGRADE | UPGRADE | WCLONE | M_CLONE | P_CLONE | P_NEXT | P_BACK | Q_NEXT | Q_BACK | P_WALK | Q_WALK | P_NTH | Q_NTH | P_ALL | Q_ALL | I_ALL) { return; }
        if r.trace.is_some() { let s = format!("{}{} a={} b={} c={} (op {})", if nested { "nested " } else { "" }, op_name(op.code), op.a, op.b, op.c, op.uid); r.tr(s); }
        r.stat[S_USER + 60 + op.code as usize] += 1;
        r.yield_point(30 + op.code as u32);
        match op.code {
            NEW_S | NEW_M => {
                let n = op.a as usize;
                let store = w().new_store();
                w().begin(op.code, &[store]);
                let (v, ids) = self.make_items(n, if op.c & 3 == 3 { 1 + (op.c >> 4) as usize % 7 } else { 0 });
                let how = op.b as u32;
                if op.code == NEW_S {
                    if let Some(s) = lib_ok(move || F::s_new(v, how)) { self.finish_new_s(store, s, &ids); }
                } else if let Some(m) = lib_ok(move || F::m_new(v, how)) { self.finish_new_m(store, m, &ids); }
                w().end(0);
            }
            COLLECT => {
                let n = op.a as usize;
                let store = w().new_store();
                w().begin(op.code, &[store]);
                w().frames[r.cur].last_mut().unwrap().creating = true;
                let src = SrcIter::<T> { n, i: 0, hint: (op.b & 1) | (op.b >> 2 & 6), ph: PhantomData };
                let (mut gs, mut gm) = (None, None);
                if op.b & 2 == 0 { gs = lib_ok(move || F::s_collect(src)); } else { gm = lib_ok(move || F::m_collect(src)); }
                let ok = gs.is_some() || gm.is_some();
                if ok {
                    let ids = std::mem::take(&mut w().frames[r.cur].last_mut().unwrap().created);
                    if ids.len() != n { bad("copy-mismatch", format!("collecting asked the source for {} of {n} items", ids.len())); }
                    if let Some(s) = gs { self.finish_new_s(store, s, &ids); }
                    if let Some(m) = gm { self.finish_new_m(store, m, &ids); }
                }
                w().end(ok as u32);
            }
            CLONE | LEFT | RIGHT | DOWNGRADE => {
                let Some(e) = self.by_ref(HK::S, op.a) else { return };
                let (hid, store) = self.sid(e);
                let node0 = w().handles[hid as usize].node;
                w().begin(op.code, &[store]);
                if op.code == DOWNGRADE {
                    let res = lib_ok(|| F::s_downgrade(s_of(e)));
                    let (a, l) = { let n = &w().nodes[node0 as usize]; (n.start, n.len) };
                    self.done(e);
                    if let Some(x) = res { let n = w().h_new(HK::W, store, node0, a, l, "downgrade"); self.add(n, Obj::W(x)); }
                } else {
                    let code = op.code;
                    let res = lib_ok(|| { let s = s_of(e); match code { CLONE => F::s_clone(s), LEFT => F::s_left(s), _ => F::s_right(s) } });
                    self.done(e);
                    if let Some(s) = res {
                        let node = match code { CLONE => node0, LEFT => w().kid(node0, 0), _ => w().kid(node0, 1) };
                        let (a, l) = { let n = &w().nodes[node as usize]; (n.start, n.len) };
                        let n = w().h_new(HK::S, store, node, a, l, "clone");
                        w().check_view(n, F::s_slice(&s, 0), "wrong-view");
                        self.add(n, Obj::S(s));
                    }
                }
                w().end(0);
            }
            SPLIT_L | SPLIT_R => {
                let Some(e) = self.take(HK::S, op.a) else { return };
                let (hid, store) = self.sid(e);
                w().begin(op.code, &[store]);
                w().h_busy(hid); // from some point on it no longer is the slice it was
                let left = op.code == SPLIT_L;
                let res = lib_ok(|| { let s = mutref!(e, S); if left { F::s_split_left(s) } else { F::s_split_right(s) } });
                if let Some(s) = res {
                    let node0 = w().handles[hid as usize].node;
                    let (nl, nr) = (w().kid(node0, 0), w().kid(node0, 1));
                    let (ret, stay) = if left { (nl, nr) } else { (nr, nl) };
                    let (a, l) = { let n = &w().nodes[ret as usize]; (n.start, n.len) };
                    let (sa, sl) = { let n = &w().nodes[stay as usize]; (n.start, n.len) };
                    let n = w().h_new(HK::S, store, ret, a, l, "split");
                    w().h_range(hid, sa, sl);
                    w().h(hid).node = stay;
                    w().check_view(n, F::s_slice(&s, 0), "wrong-view");
                    self.add(n, Obj::S(s));
                    self.view(e, 0);
                }
                w().h_live(hid, "split");
                self.put(e);
                w().end(0);
            }
            READ => {
                let n = self.pools[r.cur].len();
                if op.a & 0x4000 != 0 {
                    let kind = [HK::S, HK::S, HK::M, HK::P][op.b as usize % 4];
                    if let Some(e) = self.by_ref(kind, op.a) { self.view(e, op.c as u32); self.done(e); }
                } else if n > 0 {
                    let e = self.pools[r.cur][op.a as usize % n];
                    self.view(e, op.c as u32);
                }
            }
            DROP_S => if let Some(e) = self.take(HK::S, op.a) { self.drop_entry(e) },
            DROP_W => if let Some(e) = self.take(HK::W, op.a) { self.drop_entry(e) },
            DROP_M => if let Some(e) = self.take(HK::M, op.a) { self.drop_entry(e) },
            DROP_X => { let k = [HK::P, HK::Q, HK::I][op.b as usize % 3]; if let Some(e) = self.take(k, op.a) { self.drop_entry(e) } }
            DROPVAL => { let t = self.t(); if let Some(i) = self.pools[t].iter().position(|&e| matches!(unsafe { &(*e).obj }, Obj::V(_))) { let e = self.pools[t].remove(i); self.drop_entry(e) } }
            INTO_MUT => if let Some(e) = self.take(HK::S, op.a) { self.into_mut(e, op.b as u32); },
            GET_MUT => if let Some(e) = self.take(HK::S, op.a) { self.get_mut(e, op.c); },
            CONV_CYCLE => if let Some(e) = self.take(HK::S, op.a) {
                // try get_mut, then into_mut, then back
                self.get_mut(e, op.c);
                let t = self.t();
                if let Some(i) = self.pools[t].iter().position(|&x| x == e) {
                    self.pools[t].remove(i);
                    if unsafe { (*e).users } > 0 { self.put(e); return; }
                    self.into_mut(e, op.b as u32);
                }
            },
            UPGRADE => self.upgrade(op.a),
            WCLONE => {
                let Some(e) = self.by_ref(HK::W, op.a) else { return };
                let (hid, store) = self.sid(e);
                let h = w().handles[hid as usize].clone();
                w().begin(op.code, &[store]);
                let res = lib_ok(|| F::w_clone(w_of(e)));
                self.done(e);
                if let Some(x) = res { let n = w().h_new(HK::W, store, h.node, h.start, h.len, "weak clone"); self.add(n, Obj::W(x)); }
                w().end(0);
            }
            FRESHW => {
                w().begin(op.code, &[]);
                let r = lib_ok(|| { let a = F::w_new::<T>(); let b = F::w_clone(&a); let u = F::w_upgrade(&a).is_some() || F::w_upgrade(&b).is_some(); drop(a); drop(b); u });
                if r == Some(true) { soft("upgrade-dead", "a weak slice attached to nothing was upgraded".into()); }
                w().end(0);
            }
            M_SPLIT_L | M_SPLIT_R => {
                let Some(e) = self.take(HK::M, op.a) else { return };
                let (hid, store) = self.sid(e);
                let (a, l) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
                w().begin(op.code, &[store]);
                let left = op.code == M_SPLIT_L;
                if let Some(m) = lib_ok(|| { let x = mutref!(e, M); if left { F::m_split_left(x) } else { F::m_split_right(x) } }) {
                    let h = l >> 1;
                    let ((ra, rl), (sa, sl)) = if left { ((a, h), (a + h, l - h)) } else { ((a + h, l - h), (a, h)) };
                    w().h_range(hid, sa, sl);
                    let n = w().h_new(HK::M, store, NONE, ra, rl, "split");
                    w().check_view(n, F::m_slice(&m, 0), "wrong-view-mut");
                    self.add(n, Obj::M(m));
                    self.view(e, 0);
                }
                self.put(e);
                w().end(0);
            }
            INTO_IMMUT => {
                let Some(e) = self.take(HK::M, op.a) else { return };
                let (hid, store) = self.sid(e);
                w().begin(op.code, &[store]);
                w().h_busy(hid);
                let m = taken!(e, M);
                let how = op.b as u32;
                match lib_ok(move || F::m_into_immut(m, how)) {
                    Some(s) => {
                        let (a, l) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
                        let node = w().new_tree(store, a, l);
                        let h = w().h(hid);
                        h.kind = HK::S;
                        h.node = node;
                        unsafe { (*e).obj = Obj::S(s); }
                        w().h_live(hid, "into_immut");
                        w().check_items_live(hid, "into_immut");
                        self.view(e, 0);
                        self.put(e);
                    }
                    None => { w().h_dead(hid); self.free(e); }
                }
                w().end(0);
            }
            M_WRITE | I_WRITE | Q_WRITE => {
                let k = match op.code { M_WRITE => HK::M, I_WRITE => HK::I, _ => HK::Q };
                let Some(e) = self.take(k, op.a) else { return };
                let (hid, store) = self.sid(e);
                let (a, l) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
                let how = op.b as u32;
                let (sl, kind): (&mut [T], _) = match unsafe { &mut (*e).obj } { Obj::M(m) => (F::m_slice_mut(m, how), "wrong-view-mut"), Obj::I(i) => (F::i_slice_mut(i), "iter-view"), Obj::Q(q) => (F::q_slice_mut(q), "mutparts-view"), _ => unreachable!() };
                w().check_range(store, a, l, sl, kind);
                if l > 0 {
                    for x in 0..1 + (op.c % 3) as usize {
                        let i = (op.c as usize + x * 7) % l;
                        self.val = self.val.wrapping_add(1);
                        let v = self.val;
                        w().write(store, a + i, &mut sl[i], v);
                    }
                    w().check_range(store, a, l, sl, kind);
                }
                self.put(e);
            }
            M_CLONE => {
                let Some(e) = self.by_ref(HK::M, op.a) else { return };
                let (hid, store) = self.sid(e);
                let h = w().handles[hid as usize].clone();
                let ns = w().new_store();
                w().begin(op.code, &[store, ns]);
                w().frames[r.cur].last_mut().unwrap().creating = true;
                let m = match unsafe { &(*e).obj } { Obj::M(m) => m, _ => unreachable!() };
                let res = lib_ok(|| F::m_clone(m));
                if let Some(c) = res {
                    let ids = std::mem::take(&mut w().frames[r.cur].last_mut().unwrap().created);
                    if ids.len() != h.len { bad("copy-mismatch", format!("deep copy of {} items cloned {}", h.len, ids.len())); }
                    if std::mem::size_of::<T>() > 0 {
                        for (i, &id) in ids.iter().enumerate() {
                            if w().items[id as usize].clone_of != w().pos_item(store, h.start + i).0 { bad("copy-mismatch", format!("item {i} of a deep copy is not a clone of item {i} of the original")); }
                        }
                    }
                    probe(Pr::Copies);
                    self.finish_new_m(ns, c, &ids);
                } else {
                    w().check_view(hid, F::m_slice(m, 0), "copy-changed-original");
                }
                self.done(e);
                w().end(0);
            }
            INTO_ITER | M_PARTS => {
                let Some(e) = self.take(HK::M, op.a) else { return };
                let (hid, store) = self.sid(e);
                let n = 1usize << (op.b % 11);
                w().begin(op.code, &[store]);
                w().h_busy(hid);
                let m = taken!(e, M);
                let ok = if op.code == INTO_ITER {
                    lib_ok(move || F::m_into_iter(m)).map(|i| { unsafe { (*e).obj = Obj::I(i); } w().h(hid).kind = HK::I; }).is_some()
                } else {
                    lib_ok(move || F::m_parts(m, n)).map(|q| { unsafe { (*e).obj = Obj::Q(q); }
                        let h = w().h(hid); h.kind = HK::Q; h.ostart = h.start; h.olen = h.len; h.n = n; h.f = 0; h.b = 0; }).is_some()
                };
                if ok { w().h_live(hid, "convert"); self.view(e, 0); self.put(e); } else { w().h_dead(hid); self.free(e); }
                w().end(0);
            }
            S_PARTS => {
                let Some(e) = self.take(HK::S, op.a) else { return };
                let (hid, store) = self.sid(e);
                let n = 1usize << (op.b % 11);
                w().begin(op.code, &[store]);
                w().h_busy(hid);
                let s = taken!(e, S);
                match lib_ok(move || F::s_parts(s, n)) {
                    Some(p) => {
                        unsafe { (*e).obj = Obj::P(p); }
                        let h = w().h(hid);
                        h.kind = HK::P;
                        h.ostart = h.start;
                        h.olen = h.len;
                        h.n = n;
                        h.f = 0;
                        h.b = 0;
                        w().h_live(hid, "convert");
                        self.view(e, 0);
                        self.put(e);
                    }
                    None => { w().h_dead(hid); self.free(e); }
                }
                w().end(0);
            }
            P_NEXT | P_BACK => {
                for k in 0..1 + op.c % 4 {
                    let Some(e) = self.take(HK::P, op.a) else { return };
                    self.part_of_s(e, (op.code == P_BACK) ^ (op.b >> k & 1 == 1));
                    // keep the order of the pool stable so that repeated steps hit the same iterator
                    self.put(e);
                    if self.pools[r.cur].len() > 40 { break; }
                }
            }
            P_CLONE => {
                let Some(e) = self.by_ref(HK::P, op.a) else { return };
                let (hid, store) = self.sid(e);
                let h = w().handles[hid as usize].clone();
                w().begin(op.code, &[store]);
                let p = match unsafe { &(*e).obj } { Obj::P(p) => p, _ => unreachable!() };
                let res = lib_ok(|| F::p_clone(p));
                self.done(e);
                if let Some(c) = res {
                    let n = w().h_new(HK::P, store, h.node, h.start, h.len, "clone");
                    let g = w().h(n);
                    g.ostart = h.ostart;
                    g.olen = h.olen;
                    g.n = h.n;
                    g.f = h.f;
                    g.b = h.b;
                    self.add(n, Obj::P(c));
                    let t = self.t();
                    let e2 = *self.pools[t].last().unwrap();
                    self.view(e2, 0);
                }
                w().end(0);
            }
            I_COUNT | P_COUNT | Q_COUNT => {
                let k = match op.code { I_COUNT => HK::I, P_COUNT => HK::P, _ => HK::Q };
                let Some(e) = self.take(k, op.a) else { return };
                let (hid, store) = self.sid(e);
                let h = w().handles[hid as usize].clone();
                let want = if k == HK::I { h.len } else { h.n - h.f - h.b };
                if op.b & 1 == 1 && want <= 64 && rt().cfg.dpanic == 0 { return self.last(e, k, h, want); }
                w().begin(op.code, &[store]);
                w().h_kill(hid);
                let o = take_obj(e);
                self.free(e);
                let res = lib_ok(move || match o { Obj::I(i) => F::i_count(i), Obj::P(p) => F::p_count(p), Obj::Q(q) => F::q_count(q), _ => unreachable!() });
                if let Some(n) = res { if n != want { bad(match k { HK::I => "iter-len", HK::P => "parts-len", _ => "mutparts-len" }, format!("count() is {n}, but {want} elements were still to come")); } }
                w().h_dead(hid);
                w().end(0);
            }
            I_NEXT | I_BACK => {
                for k in 0..1 + op.c % 5 {
                    let Some(e) = self.take(HK::I, op.a) else { return };
                    self.iter_step(e, (op.code == I_BACK) ^ (op.b >> k & 1 == 1), op.b & 0x100 != 0 && self.pools[r.cur].len() < 30);
                    self.put(e);
                }
            }
            I_NTH => {
                let Some(e) = self.take(HK::I, op.a) else { return };
                self.iter_nth(e, op.b & 1 == 1, op.c as usize % 6);
                self.put(e);
            }
            I_FROM | I_TO => {
                let Some(e) = self.take(HK::I, op.a) else { return };
                let (hid, store) = self.sid(e);
                let (a, l) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
                let at = op.b as usize % (l + 1);
                w().begin(op.code, &[store]);
                let from = op.code == I_FROM;
                if let Some(x) = lib_ok(|| { let i = mutref!(e, I); if from { F::i_from(i, at) } else { F::i_to(i, at) } }) {
                    let ((ra, rl), (sa, sl)) = if from { ((a + at, l - at), (a, at)) } else { ((a, at), (a + at, l - at)) };
                    w().h_range(hid, sa, sl);
                    let n = w().h_new(HK::I, store, NONE, ra, rl, "split");
                    self.add(n, Obj::I(x));
                    let t = self.t();
                    let e2 = *self.pools[t].last().unwrap();
                    self.view(e2, 0);
                    self.view(e, 0);
                }
                self.put(e);
                w().end(0);
            }
            Q_NEXT | Q_BACK => {
                for k in 0..1 + op.c % 4 {
                    let Some(e) = self.take(HK::Q, op.a) else { return };
                    self.part_of_m(e, (op.code == Q_BACK) ^ (op.b >> k & 1 == 1));
                    self.put(e);
                    if self.pools[r.cur].len() > 40 { break; }
                }
            }
            P_WALK | Q_WALK | I_WALK => self.long_walk(op),
            COMPARE => self.compare(op),
            PLAIN => {
                w().begin(op.code, &[]);
                crate::plain::run::<F>(simrt::rng::mix((op.a as u64) << 32 | (op.b as u64) << 16 | op.c as u64));
                w().end(0);
            }
            P_NTH | Q_NTH => self.parts_nth(op),
            P_ALL | Q_ALL => self.parts_all(op),
            I_ALL => {
                let Some(e) = self.take(HK::I, op.a) else { return };
                let (hid, store) = self.sid(e);
                let (a, n) = { let h = &w().handles[hid as usize]; (h.start, h.len) };
                if n > 24 { self.put(e); return; }
                w().begin(op.code, &[store]);
                let stop = self.consumer_stops(n);
                let how = if stop > 0 && matches!(op.b % 17, 6 | 15) { 0 } else { op.b as u32 };
                let back = crate::fam::backwards(how);
                let n = if stop > 0 { stop } else { n };
                let l = w().handles[hid as usize].len;
                let want: Vec<u32> = (0..n).map(|k| w().moved_out(store, if back { a + l - 1 - k } else { a + k })).collect();
                w().h_range(hid, if back { a } else { a + n }, l - n);
                w().h_kill(hid);
                let i = taken!(e, I);
                self.free(e);
                let mut got: Vec<T> = Vec::with_capacity(n + 8);
                lib_ok(|| F::i_each(i, how, &mut |t| { if got.len() < n + 8 { got.push(t) } else { std::mem::forget(t) } if got.len() == stop { std::panic::panic_any(Injected); } }));
                if got.len() != n { bad("iter-wrong", format!("consuming an iterator of {n} items yields {} items", got.len())); }
                for (k, t) in got.into_iter().enumerate() {
                    let it = w().items[want[k] as usize];
                    if !t.matches(want[k], it.val) || (T::HASID && it.state != IS::Out) { bad("iter-wrong", format!("consuming an iterator yields something else than its items in order at step {k}")); }
                    self.add(want[k], Obj::V(t));
                }
                w().h_dead(hid);
                w().end(0);
            }
            CLONE_FROM | WCLONE_FROM => {
                if r.cfg.dpanic > 0 { return; }
                let k = if op.code == CLONE_FROM { HK::S } else { HK::W };
                let Some(e) = self.by_ref(k, op.a) else { return };
                let Some(x) = self.take(k, op.b) else { self.done(e); return };
                let (hid, store) = self.sid(e);
                let (hx, sx) = self.sid(x);
                let h = w().handles[hid as usize].clone();
                w().begin(op.code, &[sx, store]); // the items destroyed here are the target's
                w().h_kill(hx);
                probe(Pr::CloneFrom);
                let ok = lib_ok(|| if k == HK::S { F::s_clone_from(mutref!(x, S), s_of(e)) } else { F::w_clone_from(mutref!(x, W), w_of(e)) }).is_some();
                self.done(e);
                w().h_dead(hx);
                if ok {
                    let n = w().h_new(k, store, h.node, h.start, h.len, "clone");
                    unsafe { (*x).hid = n; (*x).store = store; }
                    self.view(x, 0);
                    self.put(x);
                } else { std::mem::forget(take_obj(x)); self.free(x); w().any_immortal = true; }
                w().end(0);
            }
            M_CLONE_FROM => {
                if !T::HASID { return; }
                let Some(e) = self.by_ref(HK::M, op.a) else { return };
                let Some(x) = self.take(HK::M, op.b) else { self.done(e); return };
                let (hid, store) = self.sid(e);
                let (hx, sx) = self.sid(x);
                let src = w().handles[hid as usize].clone();
                let (a, n) = { let h = &w().handles[hx as usize]; (h.start, h.len) };
                if n == 0 && src.len == 0 { self.put(x); self.done(e); return; }
                let ns = w().new_store();
                w().begin(op.code, &[sx, store, ns]);
                w().frames[r.cur].last_mut().unwrap().creating = true;
                w().h_kill(hx); // the library may destroy the target's items now
                probe(Pr::CloneFrom);
                let ok = lib_ok(|| F::m_clone_from(mutref!(x, M), match unsafe { &(*e).obj } { Obj::M(m) => m, _ => unreachable!() })).is_some();
                w().check_view(hid, F::m_slice(match unsafe { &(*e).obj } { Obj::M(m) => m, _ => unreachable!() }, 0), "copy-changed-original");
                let mut ids = std::mem::take(&mut w().frames[r.cur].last_mut().unwrap().created);
                let m = taken!(x, M);
                self.free(x);
                let sl: &[T] = F::m_slice(&m, 0);
                let (at, len) = (sl.as_ptr() as usize, sl.len());
                let base = { let st = &w().stores[sx as usize]; st.base + a * st.isize_ };
                if ok && len != src.len { bad("copy-mismatch", format!("clone_from a slice of {} items results in one of {len}", src.len)); }
                let ww = w();
                let from_source = |j: usize, id: u32| ww.items[id as usize].clone_of == ww.pos_item(store, src.start + j).0;
                w().h_dead(hx);
                if len > 0 && n > 0 && at == base && !w().stores[sx as usize].freed {
                    // untouched, or overwritten in place
                    if len > n { bad("copy-mismatch", "clone_from yields more items than its target's storage holds".into()); }
                    if ok { for (j, t) in sl.iter().enumerate() { if !t.ident().map_or(false, |id| (id as usize) < w().items.len() && from_source(j, id)) { bad("copy-mismatch", format!("item {j} after clone_from is not a clone of item {j} of the source")); } } }
                    if !w().refill(sx, a, sl, &mut ids) { bad("read-destroyed", "an exclusive slice exposes a destroyed item after clone_from".into()); }
                    w().frames[r.cur].last_mut().unwrap().created = ids;
                    let id = w().h_new(HK::M, sx, NONE, a, len, "clone_from");
                    w().check_view(id, F::m_slice(&m, 0), "wrong-view-mut");
                    self.add(id, Obj::M(m));
                } else if len > 0 {
                    if ids.len() != len { bad("copy-mismatch", format!("clone_from of {len} items cloned {}", ids.len())); }
                    for (j, &id) in ids.iter().enumerate() { if !from_source(j, id) { bad("copy-mismatch", format!("item {j} after clone_from is not a clone of item {j} of the source")); } }
                    self.finish_new_m(ns, m, &ids);
                } else {
                    w().frames[r.cur].last_mut().unwrap().created = ids;
                    if ok { self.finish_new_m(ns, m, &[]); } else {
                        // an empty target may keep its storage
                        let id = w().h_new(HK::M, sx, NONE, a, 0, "clone_from");
                        self.add(id, Obj::M(m));
                    }
                }
                self.done(e);
                w().end(ok as u32);
            }
            BADARG => self.badarg(op),
            X_NEW => cross::new(op),
            X_STEP => cross::step(op),
            X_DROP => cross::drop_one(op),
            X_CROSS => cross::cross(op),
            X_RECV => cross::receive(op),
            X_SHARED => cross::shared_use(op),
            SEND => {
                let n = self.pools[r.cur].len();
                if n == 0 || nested { return; }
                let i = op.a as usize % n;
                let to = op.b as usize % NT;
                if !matches!(r.tasks[to].state, TState::Ready | TState::Rendezvous | TState::Join) || unsafe { (*self.pools[r.cur][i]).users } > 0 { return; }
                let e = self.pools[r.cur].remove(i);
                let v = *r.vc();
                self.mail[to].push((v, r.cur, e));
                r.tick();
            }
            RECV => {
                let t = r.cur;
                for (v, from, e) in std::mem::take(&mut self.mail[t]) {
                    r.tasks[t].vc.join(&v);
                    if from != t { probe(Pr::CrossTask); }
                    self.put(e);
                }
            }
            PUBLISH => {
                let k = match op.b % 8 { 0..=2 => HK::S, 3..=5 => HK::W, 6 => HK::P, _ => HK::M };
                if nested || self.board.len() >= 4 { return; }
                let Some(e) = self.take(k, op.a) else { return };
                unsafe { (*e).publ = *r.vc(); (*e).used = *r.vc(); }
                r.tick();
                self.board.push(e);
            }
            TAKE => {
                if self.board.is_empty() || nested { return; }
                let i = op.a as usize % self.board.len();
                let e = self.board[i];
                if unsafe { (*e).users } > 0 { return; }
                self.board.remove(i);
                let v = unsafe { (*e).used };
                r.tasks[r.cur].vc.join(&v);
                self.put(e);
            }
            REND => if !nested && r.cur < NT { r.rendezvous(); },
            PAUSE => { for _ in 0..1 + op.a % 8 { r.yield_point(25); } }
            KILL => {
                if nested { return; }
                let t = r.cur;
                probe(Pr::Kills);
                w().faulted = true;
                let (busy, free): (Vec<_>, Vec<_>) = std::mem::take(&mut self.pools[t]).into_iter().partition(|&e| unsafe { (*e).users > 0 });
                self.pools[t] = busy;
                struct Bomb<F: Fam, T: Item>(Vec<Ent<F, T>>);
                impl<F: Fam, T: Item> Drop for Bomb<F, T> { fn drop(&mut self) { for e in std::mem::take(&mut self.0) { env::<F, T>().drop_entry(e); } } }
                let res = catch_unwind(AssertUnwindSafe(move || { let _b = Bomb::<F, T>(free); std::panic::panic_any(Injected); }));
                rt().tasks[t].unwinding = 0;
                drop(res);
            }
            FORGET => {
                let n = self.pools[r.cur].len();
                if n == 0 { return; }
                let i = op.a as usize % n;
                let e = self.pools[r.cur][i];
                if unsafe { (*e).users } > 0 || kind_of(e).is_none() { return; }
                self.pools[r.cur].remove(i);
                let (hid, store) = self.sid(e);
                std::mem::forget(take_obj(e));
                self.free(e);
                w().h(hid).immortal = true;
                w().stores[store as usize].immortal = true;
                w().any_immortal = true;
                probe(Pr::Forgets);
            }
            DROPALL => {
                let t = r.cur;
                loop {
                    let Some(i) = self.pools[t].iter().position(|&e| unsafe { (*e).users == 0 }) else { break };
                    let e = self.pools[t].remove(i);
                    self.drop_entry(e);
                }
            }
            _ => {}
        }
    }
    /// Many steps on one iterator in one of several patterns; what it yields is dropped at once, later, or kept.
    fn long_walk(&mut self, op: Op) {
        let k = match op.code { P_WALK => HK::P, Q_WALK => HK::Q, _ => HK::I };
        let bits = simrt::rng::mix(op.b as u64 ^ 0x5bd1_e995);
        let steps = match op.c & 3 { 0 => 80, 1 => (op.c >> 2) % 40, _ => (op.c >> 2) % 14 } as u32;
        let keep = op.c >> 9 & 3;
        let Some(e) = self.take(k, op.a) else { return };
        let hid = unsafe { (*e).hid };
        for i in 0..steps {
            let back = match op.b % 6 { 0 => false, 1 => true, 2 => i & 1 == 1, 3 => i / 3 & 1 == 1, 4 => i > steps / 2, _ => bits >> (i % 64) & 1 == 1 };
            let more = { let h = &w().handles[hid as usize]; if k == HK::I { h.len > 0 } else { h.n > h.f + h.b } };
            let t = self.t();
            let roomy = self.pools[t].len() < 34;
            let drop_it = !roomy || match keep { 0 => true, 1 => i % 4 != 0, 2 => i % 2 == 0, _ => false };
            match k {
                HK::I => self.iter_step(e, back, !drop_it),
                _ => {
                    let x = if k == HK::P { self.part_of_s(e, back) } else { self.part_of_m(e, back) };
                    if let (Some(x), true) = (x, drop_it) {
                        if let Some(j) = self.pools[t].iter().position(|&y| y == x) { if unsafe { (*x).users == 0 } { self.pools[t].remove(j); self.drop_entry(x); } }
                    }
                }
            }
            if !more { break; }
        }
        self.put(e);
    }
    /// Comparing, hashing and formatting handles against the plain slices they expose.
    fn compare(&mut self, op: Op) {
        match op.c % 6 {
            0..=2 => {
                let k = if op.c % 6 == 2 { HK::M } else { HK::S };
                let Some(x) = self.by_ref(k, op.a) else { return };
                let Some(y) = self.by_ref(k, op.b) else { self.done(x); return };
                let (sx, sy) = (self.sid(x).1, self.sid(y).1);
                self.view(x, 0);
                w().begin(op.code, &[sx, sy]);
                probe(Pr::Compared);
                let (a, b): (&[T], &[T]) = match unsafe { (&(*x).obj, &(*y).obj) } { (Obj::S(a), Obj::S(b)) => (F::s_slice(a, 0), F::s_slice(b, 0)), (Obj::M(a), Obj::M(b)) => (F::m_slice(a, 0), F::m_slice(b, 0)), _ => unreachable!() };
                let got = lib_ok(|| match unsafe { (&(*x).obj, &(*y).obj) } { (Obj::S(a), Obj::S(b)) => F::s_compare(a, b), (Obj::M(a), Obj::M(b)) => F::m_compare(a, b), _ => unreachable!() });
                if let Some(g) = got {
                    let want = crate::world::quietly(|| { let c = a.cmp(b); crate::fam::cmps(a, b, Some(c)) });
                    if g != want {
                        let ks = |s: &[T]| s.iter().take(9).map(|t| t.key()).collect::<Vec<_>>();
                        soft("compare", format!("comparing slices of {} and {} items (keys {:?} / {:?}) gives {g:?} for (==, !=, cmp, partial_cmp, [<, <=, >, >=]), the plain slices give {want:?}", a.len(), b.len(), ks(a), ks(b)));
                    }
                }
                let mut h = Rec::default();
                let ok = lib_ok(|| match unsafe { &(*x).obj } { Obj::S(a) => F::s_hash(a, &mut h), Obj::M(a) => F::m_hash(a, &mut h), _ => unreachable!() }).is_some();
                if ok {
                    let mut want = Rec::default();
                    crate::world::quietly(|| std::hash::Hash::hash(a, &mut want));
                    if h.0 != want.0 { soft("compare", format!("hashing a slice of {} items feeds the hasher something else than the plain slice does", a.len())); }
                }
                self.done(x);
                self.done(y);
                w().end(0);
            }
            _ => {
                let k = [HK::S, HK::M, HK::I, HK::P, HK::Q][op.b as usize % 5];
                let shared = matches!(k, HK::S | HK::M | HK::P);
                let Some(x) = self.by_ref(k, if shared { op.a } else { op.a & 0xff }) else { return };
                let (hid, sx) = self.sid(x);
                self.view(x, 0);
                let alt = op.b & 0x40 != 0;
                w().begin(op.code, &[sx]);
                // sometimes the writer runs full part way
                let room = if op.b & 0x300 == 0 { (op.b >> 7 & 1 | op.b >> 9 & 0x7e) as usize } else { usize::MAX };
                let got = lib_ok(|| match unsafe { &(*x).obj } { Obj::S(a) => F::s_fmt(a, alt, room), Obj::M(a) => F::m_fmt(a, alt, room), Obj::I(a) => F::i_fmt(a, alt, room), Obj::P(a) => F::p_fmt(a, alt, room), Obj::Q(a) => F::q_fmt(a, alt, room), _ => unreachable!() });
                if let Some(got) = got {
                    let sl: &[T] = match unsafe { &(*x).obj } { Obj::S(a) => F::s_slice(a, 0), Obj::M(a) => F::m_slice(a, 0), Obj::I(a) => F::i_slice(a), Obj::P(a) => F::p_slice(a), Obj::Q(a) => F::q_slice(a), _ => unreachable!() };
                    let plain = matches!(k, HK::S | HK::M);
                    let want = crate::world::quietly(|| crate::fam::show(&sl, alt && plain, usize::MAX));
                    if got.2 { probe(Pr::FullWriter); }
                    if got.1 == got.2 { soft("format", format!("formatting reports {} although the writer {}", if got.1 { "success" } else { "an error" }, if got.2 { "failed" } else { "did not fail" })); }
                    if plain {
                        if if got.2 { !want.0.starts_with(&got.0) } else { got.0 != want.0 } { soft("format", format!("a slice formats as {:?}, the plain slice as {:?}", got.0, want.0)); }
                    } else if !got.2 {
                        // the layout of an iterator's debug output is its own business; the items still to come must show, and no others
                        let strip = |s: &str| s.matches('<').count();
                        if strip(&got.0) != sl.len() || (!alt && !got.0.contains(&want.0)) { soft("format", format!("an iterator formats as {:?} with the items {:?} still to come", got.0, want.0)); }
                    }
                }
                let _ = hid;
                self.done(x);
                w().end(0);
            }
        }
    }
    /// Consumes an iterator with last(). Not under panicking destructors: what std's default last() does with
    /// the element it holds when the one it replaces panics is not the library's doing.
    fn last(&mut self, e: Ent<F, T>, k: HK, h: crate::world::HRec, left: usize) {
        let (hid, store) = self.sid(e);
        w().begin(match k { HK::I => I_COUNT, HK::P => P_COUNT, _ => Q_COUNT }, &[store]);
        let mut want = NONE;
        if k == HK::I && left > 0 { want = w().moved_out(store, h.start + left - 1); w().h_range(hid, h.start, left - 1); }
        if k == HK::P { for j in h.f..h.n - h.b { walk(h.node, h.n, j); } }
        w().h_kill(hid);
        let o = take_obj(e);
        self.free(e);
        let res = lib_ok(move || match o { Obj::I(i) => F::i_last(i).map(Obj::V), Obj::P(p) => F::p_last(p).map(Obj::S), Obj::Q(q) => F::q_last(q).map(Obj::M), _ => unreachable!() });
        w().h_dead(hid);
        let (view, count) = match k { HK::I => ("iter-wrong", "iter-wrong"), HK::P => ("parts-view", "parts-count"), _ => ("mutparts-view", "mutparts-count") };
        match res {
            Some(Some(o)) => {
                if left == 0 { bad(count, "last() of an exhausted iterator yields something".into()); }
                let (a, l) = part_range(h.ostart, h.olen, h.n.max(1), h.n.max(1) - 1 - h.b);
                let n = match &o {
                    Obj::S(s) => { let node = walk(h.node, h.n, h.n - 1 - h.b); let n = w().h_new(HK::S, store, node, a, l, "parts"); w().check_view(n, F::s_slice(s, 0), view); n }
                    Obj::M(m) => { let n = w().h_new(HK::M, store, NONE, a, l, "parts"); w().check_view(n, F::m_slice(m, 0), view); n }
                    Obj::V(t) => { if !t.matches(want, w().items[want as usize].val) { bad(view, "last() yields another item than the last".into()); } want }
                    _ => unreachable!(),
                };
                self.add(n, o);
            }
            Some(None) => if left > 0 { bad(count, format!("last() yields nothing with {left} elements still to come")); },
            None => {}
        }
        w().end(0);
    }
    fn parts_nth(&mut self, op: Op) {
        let shared = op.code == P_NTH;
        let Some(e) = self.take(if shared { HK::P } else { HK::Q }, op.a) else { return };
        let (hid, store) = self.sid(e);
        let h = w().handles[hid as usize].clone();
        let rem = h.n - h.f - h.b;
        let k = op.c as usize % 5;
        let back = op.b & 1 == 1;
        let skip = k.min(rem);
        let gone = (k + 1).min(rem);
        w().begin(op.code, &[store]);
        let seek = |f: usize, b: usize| { let (ra, rl) = rem_range(h.ostart, h.olen, h.n, f, b); let g = w().h(hid); g.f = f; g.b = b; w().h_range(hid, ra, rl); };
        if shared {
            w().h_touch(hid);
            for j in 0..gone { walk(h.node, h.n, if back { h.n - 1 - h.b - j } else { h.f + j }); }
        }
        if back { seek(h.f, h.b + gone) } else { seek(h.f + gone, h.b) }
        let res = lib_ok(|| if shared { let p = mutref!(e, P); (if back { F::p_nth_back(p, k) } else { F::p_nth(p, k) }).map(Obj::S) } else { let p = mutref!(e, Q); (if back { F::q_nth_back(p, k) } else { F::q_nth(p, k) }).map(Obj::M) });
        let (kind, count) = if shared { ("parts-view", "parts-count") } else { ("mutparts-view", "mutparts-count") };
        match res {
            Some(Some(o)) => {
                if k >= rem { bad(count, format!("nth({k}) of a parts iterator with {rem} parts left yields a part")); }
                let i = if back { h.n - 1 - h.b - skip } else { h.f + skip };
                let (a, l) = part_range(h.ostart, h.olen, h.n, i);
                let n = match &o {
                    Obj::S(s) => { let node = walk(h.node, h.n, i); let n = w().h_new(HK::S, store, node, a, l, "parts"); w().check_view(n, F::s_slice(s, 0), kind); n }
                    Obj::M(m) => { let n = w().h_new(HK::M, store, NONE, a, l, "parts"); w().check_view(n, F::m_slice(m, 0), kind); n }
                    _ => unreachable!(),
                };
                self.add(n, o);
                self.view(e, 0);
                w().end(1);
            }
            Some(None) => {
                if k < rem { bad(count, format!("nth({k}) of a parts iterator with {rem} parts left yields nothing")); }
                self.view(e, 0);
                w().end(0);
            }
            None => {
                // a destructor panicked part way: continue from where the iterator says it is
                let m = match unsafe { &(*e).obj } { Obj::P(p) => F::p_len(p).0, Obj::Q(q) => F::q_len(q).0, _ => unreachable!() };
                if m > rem { bad(count, "parts iterator grew".into()); }
                if back { seek(h.f, h.b + rem - m) } else { seek(h.f + rem - m, h.b) }
                w().check_items_live(hid, "nth");
                self.view(e, 0);
                w().end(2);
            }
        }
        self.put(e);
    }
    /// After how many elements the code consuming an iterator panics (0: it does not).
    fn consumer_stops(&self, n: usize) -> usize {
        let r = rt();
        let p = r.cfg.ipanic * 4;
        if n == 0 || p == 0 || r.tasks[r.cur].unwinding > 0 { return 0; }
        let v = r.fault(simrt::rt::K_IPANIC, p.min(500), n as u32) as usize;
        if v > 0 { w().faulted = true; probe(Pr::IPanics); }
        v
    }
    /// Consumes a parts iterator with an internal iteration method.
    fn parts_all(&mut self, op: Op) {
        let shared = op.code == P_ALL;
        let Some(e) = self.take(if shared { HK::P } else { HK::Q }, op.a) else { return };
        let (hid, store) = self.sid(e);
        let h = w().handles[hid as usize].clone();
        let rem = h.n - h.f - h.b;
        if rem > 16 { self.put(e); return; }
        let stop = self.consumer_stops(rem);
        let how = if stop > 0 && matches!(op.b % 17, 6 | 15) { 0 } else { op.b as u32 };
        let rem = if stop > 0 { stop } else { rem };
        let back = crate::fam::backwards(how);
        w().begin(op.code, &[store]);
        if stop > 0 { w().h_kill(hid); } else { w().h_busy(hid); }
        let o = take_obj(e);
        self.free(e);
        let (kind, count) = if shared { ("parts-view", "parts-count") } else { ("mutparts-view", "mutparts-count") };
        let mut got: Vec<Obj<F, T>> = Vec::with_capacity(rem + 8);
        lib_ok(|| match o {
            Obj::P(p) => F::p_each(p, how, &mut |s| { if got.len() < rem + 8 { got.push(Obj::S(s)) } else { std::mem::forget(s) } if got.len() == stop { std::panic::panic_any(Injected); } }),
            Obj::Q(p) => F::q_each(p, how, &mut |s| { if got.len() < rem + 8 { got.push(Obj::M(s)) } else { std::mem::forget(s) } if got.len() == stop { std::panic::panic_any(Injected); } }),
            _ => {}
        });
        if got.len() != rem { bad(count, format!("consuming a parts iterator with {rem} parts left yields {} parts", got.len())); }
        if stop == 0 { w().h_kill(hid); }
        w().h_dead(hid);
        for (k, o) in got.into_iter().enumerate() {
            let i = if back { h.n - 1 - h.b - k } else { h.f + k };
            let (a, l) = part_range(h.ostart, h.olen, h.n, i);
            let n = match &o {
                Obj::S(s) => { let node = walk(h.node, h.n, i); let n = w().h_new(HK::S, store, node, a, l, "parts"); w().check_view(n, F::s_slice(s, 0), kind); n }
                Obj::M(m) => { let n = w().h_new(HK::M, store, NONE, a, l, "parts"); w().check_view(n, F::m_slice(m, 0), kind); n }
                _ => unreachable!(),
            };
            self.add(n, o);
        }
        w().end(0);
    }
    fn badarg(&mut self, op: Op) {
        let n = [0usize, 3, 6, 12, 24, 7][op.b as usize % 6];
        match op.c % 4 {
            0 | 1 => {
                let k = if op.c % 4 == 0 { HK::S } else { HK::M };
                let Some(e) = self.take(k, op.a) else { return };
                let (hid, store) = self.sid(e);
                w().begin(BADARG, &[store]);
                probe(Pr::BadArgs);
                w().h_kill(hid);
                let o = take_obj(e);
                self.free(e);
                let r = lib(move || match o { Obj::S(s) => drop(F::s_parts(s, n)), Obj::M(m) => drop(F::m_parts(m, n)), _ => {} });
                if r.is_ok() { bad(if k == HK::S { "parts-badarg" } else { "mutparts-badarg" }, format!("split_into_parts({n}) was accepted")); }
                w().h_dead(hid);
                w().end(0);
            }
            _ => {
                let Some(e) = self.take(HK::I, op.a) else { return };
                let (hid, store) = self.sid(e);
                let l = w().handles[hid as usize].len;
                w().begin(BADARG, &[store]);
                probe(Pr::BadArgs);
                let at = l + 1 + (op.b as usize % 3);
                let from = op.c % 4 == 2;
                let r = lib(|| { let i = mutref!(e, I); let x = if from { F::i_from(i, at) } else { F::i_to(i, at) }; std::mem::forget(x); });
                if r.is_ok() { bad("iter-badarg", format!("splitting an iterator of {l} items at {at} was accepted")); }
                w().check_items_live(hid, "rejected split");
                self.view(e, 0);
                self.put(e);
                w().end(0);
            }
        }
    }
    fn nested_op(&mut self, v: u32) {
        const K: [u8; 16] = [CLONE, LEFT, RIGHT, UPGRADE, DROP_S, DROP_W, DOWNGRADE, INTO_MUT, GET_MUT, READ, DROP_M, DROP_X, SPLIT_L, UPGRADE, INTO_IMMUT, NEW_S];
        let code = K[(v % 16) as usize];
        let a = (v / 16) as u16;
        let uid = rt().tasks[rt().cur].op;
        self.exec(Op { code, a, b: a, c: 0, uid }, true);
    }
}
fn reenter<F: Fam, T: Item>(v: u32) { env::<F, T>().nested_op(v) }

fn run_prog<F: Fam, T: Item>(p: &[Op]) {
    for &op in p {
        rt().set_op(op.uid);
        env::<F, T>().exec(op, false);
    }
}
/// Everything after the join: remaining program, then disposal of whatever is left, then the books.
fn finale<F: Fam, T: Item>(case: &'static Case) {
    let e = env::<F, T>();
    for t in 0..NT {
        for (v, _, x) in std::mem::take(&mut e.mail[t]) { rt().tasks[0].vc.join(&v); e.pools[0].push(x); }
        if t > 0 { let p = std::mem::take(&mut e.pools[t]); e.pools[0].extend(p); }
    }
    for x in std::mem::take(&mut e.board) { let v = unsafe { (*x).used }; rt().tasks[0].vc.join(&v); e.pools[0].push(x); }
    run_prog::<F, T>(case.progs.last().unwrap());
    rt().set_op(0xffff);
    cross::run_end();
    for (v, _, x) in std::mem::take(&mut e.mail[0]) { rt().tasks[0].vc.join(&v); e.pools[0].push(x); }
    for x in std::mem::take(&mut e.board) { e.pools[0].push(x); }
    let mut k = 0u32;
    let weak_last = case.fin_mode & 1 == 1;
    while !e.pools[0].is_empty() {
        let n = e.pools[0].len();
        let mut i = match case.fin_mode >> 1 & 3 { 0 => 0, 1 => n - 1, 2 => n / 2, _ => (k as usize * 5) % n };
        if weak_last { if let Some(j) = (0..n).map(|d| (i + d) % n).find(|&j| kind_of(e.pools[0][j]) != Some(HK::W)) { i = j; } }
        k += 1;
        let x = e.pools[0][i];
        if k > 20_000 { e.pools[0].remove(i); e.drop_entry(x); continue; }
        e.view(x, k);
        if kind_of(x) == Some(HK::S) && case.fin_mode & 8 != 0 && k % 2 == 0 {
            e.pools[0].remove(i);
            if case.fin_mode & 16 != 0 { e.get_mut(x, 1); if let Some(j) = e.pools[0].iter().position(|&y| y == x) { e.pools[0].remove(j); } else { continue; } }
            if e.into_mut(x, k) { continue; }
            if let Some(j) = e.pools[0].iter().position(|&y| y == x) { e.pools[0].remove(j); e.drop_entry(x); }
            continue;
        }
        if kind_of(x) == Some(HK::W) && case.fin_mode & 32 != 0 && n < 40 && k % 3 == 0 { e.pools[0].swap(0, i); let c = e.pools[0][..1].iter().filter(|&&y| kind_of(y) == Some(HK::W)).count(); if c == 1 { e.upgrade(0); } }
        if let Some(i) = e.pools[0].iter().position(|&y| y == x) { e.pools[0].remove(i); e.drop_entry(x); }
    }
    // final accounting
    let ww = w();
    if !ww.any_immortal {
        for st in &ww.stores {
            for (i, p) in st.pos.iter().enumerate() {
                if p.live && !p.leak_ok { soft("item-leak", format!("item {i} of {} was never destroyed", st.n)); }
            }
        }
        if ww.out_count != 0 { soft("item-leak", format!("{} items vanished without being destroyed or handed out", ww.out_count)); }
        if arena::live_lib() != 0 {
            let b = arena::live_blocks();
            let v: Vec<String> = b.iter().filter(|b| b.owner == 0).take(6).map(|b| format!("{} bytes (allocated in op {})", b.size, b.op)).collect();
            soft("memory-leak", format!("{} library allocations still exist after every handle was dropped: {}", arena::live_lib(), v.join(", ")));
        }
    }
    if let Err(m) = arena::scan() { bad("uaf-write", m); }
}

/// Executes one run; the result is in rt().violation.
pub fn run<F: Fam, T: Item>(case: &'static Case, mode: simrt::rt::Mode, trace: bool) {
    let r = rt();
    let e: Box<Env<F, T>> = Box::new(Env { pools: (0..NT).map(|_| vec![]).collect(), mail: (0..NT).map(|_| vec![]).collect(), board: vec![], val: 1000, ph: PhantomData });
    unsafe { ENV = Box::into_raw(e) as *mut u8; }
    arena::begin(case.cfg.reuse);
    w().reset();
    cross::reset();
    w().live_rd_sample = if T::HASID { 0 } else { 1 };
    w().reenter = Some(reenter::<F, T>);
    r.begin(case.cfg.clone(), mode, case.seed);
    r.trace = if trace { Some(vec![]) } else { None };
    r.solo = case.ntasks <= 1;
    r.spawn(0, Box::new(move || {
        run_prog::<F, T>(&case.progs[0]);
        for t in 1..case.ntasks {
            rt().spawn_edge(t);
            rt().spawn(t, Box::new(move || { run_prog::<F, T>(&case.progs[t + 1]); cross::task_end(); }));
        }
        // mail sent during setup belongs to tasks that exist only now
        let e = env::<F, T>();
        let mine = std::mem::take(&mut e.pools[0]);
        for (i, x) in mine.into_iter().enumerate() {
            let to = if case.ntasks > 1 { (i + case.fin_mode as usize) % case.ntasks } else { 0 };
            e.pools[to].push(x);
        }
        run_prog::<F, T>(&case.progs[1]);
        rt().join_all();
        finale::<F, T>(case);
    }));
    r.run();
    w().on = false;
    unsafe {
        if r.violation.is_none() && r.internal_error.is_none() { drop(Box::from_raw(ENV as *mut Env<F, T>)); }
        ENV = std::ptr::null_mut();
    }
}

pub fn dispatch(case: &Case, mode: simrt::rt::Mode, trace: bool) {
    // leaked for the duration of the process only when a run is abandoned
    let c: *mut Case = Box::into_raw(Box::new(case.clone()));
    let cs: &'static Case = unsafe { &*c };
    use crate::fam::*;
    use crate::item::*;
    macro_rules! go { ($f:ident) => { match case.item % 6 { 0 => run::<$f, T12>(cs, mode, trace), 1 => run::<$f, T1>(cs, mode, trace), 2 => run::<$f, Z1>(cs, mode, trace), 3 => run::<$f, T64>(cs, mode, trace), 4 => run::<$f, Z32>(cs, mode, trace), _ => run::<$f, T16>(cs, mode, trace) } } }
    match case.fam { 0 => go!(SimArc), 1 => go!(SimRc), 2 => go!(RealArc), _ => go!(RealRc) }
    if rt().violation.is_none() { unsafe { drop(Box::from_raw(c)); } }
}
