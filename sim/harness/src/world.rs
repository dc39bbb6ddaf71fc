//! Reference model and oracles: which items exist where, which handles cover them, which
//! operations are in flight, and what every operation must or must not have done.
use simrt::arena;
use simrt::rt::{self, rt, NT, VC};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HK { S, W, M, I, P, Q }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HS { Live, Busy, Dead }

#[derive(Clone, Debug)]
pub struct HRec {
    pub kind: HK,
    pub store: u32,
    pub node: u32,
    pub start: usize,
    pub len: usize,
    pub state: HS,
    pub born: u64,
    pub last_consume: u64,
    pub borrowed: bool,
    pub immortal: bool,
    // parts iterators: original range, number of parts, yielded front/back
    pub ostart: usize,
    pub olen: usize,
    pub n: usize,
    pub f: usize,
    pub b: usize,
}
#[derive(Clone)]
pub struct Pos { pub item: u32, pub live: bool, pub leak_ok: bool, pub cover: u16, pub wt: u8, pub we: u32, pub rd: [u32; NT] }
pub struct Store {
    pub base: usize,
    pub isize_: usize,
    pub n: usize,
    pub zst: bool,
    pub pos: Vec<Pos>,
    pub nlive: usize,
    /// destroyed items without identity whose position is not known yet (settled at quiescence)
    pub anon: usize,
    pub ncover: usize, // positions with cover > 0
    pub block: Option<usize>,
    pub freed: bool,
    pub inflight: u32,
    pub opseq: u64,
    pub last_end: [u32; NT],
    pub immortal: bool,
    pub handles: Vec<u32>,
    pub ready: bool,
    /// subslices whose conversion or mutable borrow was refused at some time
    pub refused: Vec<u32>,
}
pub struct Node { pub store: u32, pub tree: u32, pub parent: u32, pub kids: [u32; 2], pub start: usize, pub len: usize, pub root: bool }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IS { Out, In(u32, u32), Gone }
#[derive(Clone, Copy)]
pub struct ItemInfo { pub val: u32, pub state: IS, pub clone_of: u32 }
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy)]
pub struct ItemRef { pub addr: usize, pub size: usize, pub hasid: bool, pub id: Option<u32> }

pub struct Frame {
    pub op: u8,
    pub stores: [u32; 4],
    pub ns: usize,
    pub created: Vec<u32>,
    pub creating: bool,
    pub dpanic: bool,
    pub panicked: bool,
    pub start_seq: u64,
}
pub struct World {
    pub on: bool,
    pub stores: Vec<Store>,
    pub handles: Vec<HRec>,
    pub nodes: Vec<Node>,
    pub items: Vec<ItemInfo>,
    pub frames: Vec<Vec<Frame>>,
    pub out_count: i64,
    pub seq: u64,
    pub harness_drop: [u32; NT],
    pub faulted: bool, // a user-code panic or re-entrant call happened in this run
    pub any_immortal: bool,
    pub reenter: Option<fn(u32)>,
    pub depth: [u32; NT],
    pub trees: u32,
    pub hist: u64, // hash of the observable history
    pub overlaps: Vec<u16>, // pairs of operation kinds that were in flight together
    pub live_rd_sample: u32,
    pub last_op: [u8; NT],
    /// library allocations: most seen while nothing was in progress; the check is off in histories of other kinds
    pub mem_high: usize,
    pub mem_off: bool,
    pub tree_nodes: Vec<u32>,
}
static mut W: *mut World = std::ptr::null_mut();
pub fn w() -> &'static mut World {
    unsafe {
        if W.is_null() {
            W = Box::into_raw(Box::new(World { on: false, stores: vec![], handles: vec![], nodes: vec![], items: vec![], frames: vec![], out_count: 0, seq: 0,
                harness_drop: [0; NT], faulted: false, any_immortal: false, reenter: None, depth: [0; NT], trees: 0, hist: 0, overlaps: vec![], live_rd_sample: 0, last_op: [0; NT], mem_high: 0, mem_off: false, tree_nodes: vec![] }));
        }
        &mut *W
    }
}
pub const U: usize = rt::S_USER;
macro_rules! probes { ($($name:ident $text:expr;)*) => {
    #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)] #[repr(usize)] #[derive(Clone, Copy)] pub enum Pr { $($name),* }
    pub const PROBES: &[&str] = &[$($text),*];
} }
probes! {
    UpSome "upgrade returned a slice"; UpNone "upgrade returned nothing"; MustSome "upgrade had to succeed (checked)"; MustNone "upgrade had to fail (checked)";
    IntoOk "into_mut granted"; IntoErr "into_mut refused"; IntoMust "into_mut had to succeed (checked)";
    GetOk "get_mut granted"; GetErr "get_mut refused"; GetMust "get_mut had to succeed (checked)";
    Quiet "store inspected at quiescence"; QuietHandles "... with other live handles on it"; Released "storage released"; Conc "operation overlapped another task's operation on the same storage";
    ReentrantOps "re-entrant operations run from item code"; DPanics "element destructors that panicked"; CPanics "element clones that panicked"; IPanics "source iterators, and code consuming an iterator, that panicked";
    Memory "library memory compared with what is reachable"; Kills "tasks unwound with all their handles"; Forgets "handles leaked with mem::forget"; BadArgs "rejected arguments"; LeakOk "items leaked by a panicking destructor call";
    SharedRef "operations through a reference shared between tasks"; CrossTask "handles moved between tasks"; Unwind "destructors run while unwinding";
    BorrowYield "interleaving points while a get_mut borrow was held"; DeepNode "subslices at depth 4 or more"; Races "item accesses checked against vector clocks";
    PartsDone "parts iterators walked to the end"; MutPartsDone "exclusive parts iterators walked to the end"; IterDone "item iterators walked to the end"; Copies "deep copies verified"; EmptyHandles "empty slices created";
    Looks "items compared, hashed or formatted by library code"; LookPanics "comparisons that panicked"; Compared "pairs of slices compared with plain slices"; FullWriter "formatting into a writer that ran full"; Plain "histories over plain, huge or non-reflexive items"; CloneFrom "handles overwritten by clone_from";
    CrossUses "uses of items that may cross threads only in part"; CrossSent "handles sent to another thread with the compiler's permission"; CrossShared "handles shared between threads with the compiler's permission"; CrossDenied "crossings the compiler refused";
}
#[inline]
pub fn probe(p: Pr) { rt().stat[U + p as usize] += 1; }

#[cold]
pub fn bad(kind: &'static str, msg: String) -> ! { rt().violate(kind, msg) }
/// As `bad`, but the run goes on when the current check does not decide this kind.
#[cold]
pub fn soft(kind: &'static str, msg: String) { rt().violate_soft(kind, || msg) }

impl World {
    pub fn reset(&mut self) {
        self.on = true;
        self.stores.clear();
        self.handles.clear();
        self.nodes.clear();
        self.items.clear();
        self.frames.clear();
        for _ in 0..NT { self.frames.push(vec![]); }
        self.out_count = 0;
        self.seq = 0;
        self.harness_drop = [0; NT];
        self.faulted = false;
        self.any_immortal = false;
        self.depth = [0; NT];
        self.trees = 0;
        self.hist = 0;
        self.mem_high = 0;
        self.mem_off = false;
        self.tree_nodes.clear();
    }
    pub fn new_item(&mut self, val: u32, clone_of: u32) -> u32 {
        let id = self.items.len() as u32;
        self.items.push(ItemInfo { val, state: IS::Out, clone_of });
        self.out_count += 1;
        id
    }
    // ---- stores, nodes, handles --------------------------------------------------------------
    /// Reserves a store id before the library call that builds it.
    pub fn new_store(&mut self) -> u32 {
        let id = self.stores.len() as u32;
        self.stores.push(Store { base: 0, isize_: 0, n: 0, zst: false, pos: vec![], nlive: 0, anon: 0, ncover: 0, block: None, freed: false, inflight: 0, opseq: 0,
            last_end: [0; NT], immortal: false, handles: vec![], ready: false, refused: vec![] });
        id
    }
    /// The library returned a fresh slice over these items: they now live in the store.
    pub fn fill_store(&mut self, s: u32, base: usize, isize_: usize, ids: &[u32]) {
        let r = rt();
        let (t, e) = (r.cur as u8, r.epoch());
        let st = &mut self.stores[s as usize];
        st.base = base;
        st.isize_ = isize_;
        st.zst = isize_ == 0;
        st.n = ids.len();
        st.ready = true;
        for (p, &id) in ids.iter().enumerate() {
            st.pos.push(Pos { item: id, live: true, leak_ok: false, cover: 0, wt: t, we: e, rd: [0; NT] });
            self.items[id as usize].state = IS::In(s, p as u32);
            self.out_count -= 1;
        }
        st.nlive = ids.len();
        if isize_ > 0 && !ids.is_empty() {
            match arena::find(base) {
                Some(b) if arena::is_live(base, isize_ * ids.len()) => {
                    arena::set_owner(b, s + 2);
                    st.block = Some(b);
                }
                _ => bad("wrong-view", format!("a new slice of {} items does not point into live memory", ids.len())),
            }
        }
    }
    pub fn new_node(&mut self, store: u32, tree: u32, parent: u32, start: usize, len: usize) -> u32 {
        let id = self.nodes.len() as u32;
        if self.tree_nodes.len() <= tree as usize { self.tree_nodes.resize(tree as usize + 1, 0); }
        self.tree_nodes[tree as usize] += 1;
        self.nodes.push(Node { store, tree, parent, kids: [NONE; 2], start, len, root: parent == NONE });
        id
    }
    pub fn new_tree(&mut self, store: u32, start: usize, len: usize) -> u32 {
        self.trees += 1;
        let t = self.trees;
        self.new_node(store, t, NONE, start, len)
    }
    /// Node of the left (0) or right (1) half.
    pub fn kid(&mut self, node: u32, side: usize) -> u32 {
        let nd = &self.nodes[node as usize];
        let (store, tree, start, len) = (nd.store, nd.tree, nd.start, nd.len);
        if len == 0 || (side == 1 && len <= 1) { return node; }
        if nd.kids[side] != NONE { return nd.kids[side]; }
        let l = len >> 1;
        let (a, n) = if side == 0 { (start, l) } else { (start + l, len - l) };
        let k = self.new_node(store, tree, node, a, n);
        self.nodes[node as usize].kids[side] = k;
        let mut d = 0;
        let mut x = k;
        while self.nodes[x as usize].parent != NONE { x = self.nodes[x as usize].parent; d += 1; }
        if d >= 4 { probe(Pr::DeepNode); }
        k
    }
    pub fn is_anc_or_self(&self, a: u32, mut n: u32) -> bool {
        loop {
            if n == a { return true; }
            if n == NONE { return false; }
            n = self.nodes[n as usize].parent;
        }
    }
    fn cover(&mut self, store: u32, a: usize, n: usize, add: bool) {
        let st = &mut self.stores[store as usize];
        for p in &mut st.pos[a..a + n] {
            if add { p.cover += 1; if p.cover == 1 { st.ncover += 1; } } else { p.cover -= 1; if p.cover == 0 { st.ncover -= 1; } }
        }
    }
    /// A handle was returned by the library. Checks exclusivity against every definitely live handle.
    pub fn h_new(&mut self, kind: HK, store: u32, node: u32, start: usize, len: usize, why: &'static str) -> u32 {
        self.seq += 1;
        let id = self.handles.len() as u32;
        self.handles.push(HRec { kind, store, node, start, len, state: HS::Live, born: self.seq, last_consume: 0, borrowed: false, immortal: false,
            ostart: start, olen: len, n: 0, f: 0, b: 0 });
        self.stores[store as usize].handles.push(id);
        if len == 0 { probe(Pr::EmptyHandles); }
        if kind != HK::W { self.cover(store, start, len, true); self.check_overlap(id, why); self.check_items_live(id, why); }
        id
    }
    fn excl(h: &HRec) -> bool { h.borrowed || matches!(h.kind, HK::M | HK::I | HK::Q) }
    pub fn check_overlap(&self, id: u32, why: &'static str) {
        let h = &self.handles[id as usize];
        if h.len == 0 || h.kind == HK::W { return; }
        for &o in &self.stores[h.store as usize].handles {
            if o == id { continue; }
            let g = &self.handles[o as usize];
            if g.state != HS::Live || g.kind == HK::W || g.len == 0 { continue; }
            if g.start < h.start + h.len && h.start < g.start + g.len && (Self::excl(h) || Self::excl(g)) {
                let kind = if h.borrowed || g.borrowed { "overlap-get-mut" } else { match why { "upgrade" => "overlap-upgrade", "into_mut" => "overlap-into-mut", _ => "overlap" } };
                soft(kind, format!("{why}: {:?}[{}..{}]{} coexists with {:?}[{}..{}]{} on the same storage", h.kind, h.start, h.start + h.len,
                    if h.borrowed { " (mutably borrowed)" } else { "" }, g.kind, g.start, g.start + g.len, if g.borrowed { " (mutably borrowed)" } else { "" }));
            }
        }
    }
    pub fn check_items_live(&self, id: u32, why: &'static str) {
        let h = &self.handles[id as usize];
        let st = &self.stores[h.store as usize];
        for p in h.start..h.start + h.len {
            if !st.pos[p].live {
                let m = format!("{why}: returned a {:?} over item {p} of {} which was already destroyed or moved out", h.kind, st.n);
                if why == "upgrade" { soft("upgrade-dead", m) } else { bad("read-destroyed", m) }
            }
        }
    }
    /// The handle is being consumed by a destroying operation: nothing it covers needs to live on.
    pub fn h_kill(&mut self, id: u32) {
        self.seq += 1;
        let (store, a, n, kind) = { let h = &mut self.handles[id as usize]; h.state = HS::Busy; h.last_consume = self.seq; (h.store, h.start, h.len, h.kind) };
        if kind != HK::W { self.cover(store, a, n, false); }
        self.handles[id as usize].len = 0;
    }
    pub fn h_dead(&mut self, id: u32) {
        self.seq += 1;
        let h = &mut self.handles[id as usize];
        h.state = HS::Dead;
        let s = h.store;
        if h.len > 0 && h.kind != HK::W { let (a, n) = (h.start, h.len); self.handles[id as usize].len = 0; self.cover(s, a, n, false); }
        let v = &mut self.stores[s as usize].handles;
        if let Some(i) = v.iter().position(|&x| x == id) { v.swap_remove(i); }
    }
    /// Conversion in flight: items stay covered but the handle is not definitely there.
    pub fn h_busy(&mut self, id: u32) { self.seq += 1; let s = self.seq; let h = &mut self.handles[id as usize]; h.state = HS::Busy; h.last_consume = s; }
    pub fn h_live(&mut self, id: u32, why: &'static str) { self.seq += 1; let s = self.seq; let h = &mut self.handles[id as usize]; h.state = HS::Live; h.last_consume = s; self.check_overlap(id, why); }
    pub fn h_touch(&mut self, id: u32) { self.seq += 1; let s = self.seq; self.handles[id as usize].last_consume = s; }
    pub fn h_range(&mut self, id: u32, start: usize, len: usize) {
        let (store, a, n) = { let h = &self.handles[id as usize]; (h.store, h.start, h.len) };
        self.cover(store, start, len, true);
        self.cover(store, a, n, false);
        let h = &mut self.handles[id as usize];
        h.start = start;
        h.len = len;
    }
    pub fn h(&mut self, id: u32) -> &mut HRec { &mut self.handles[id as usize] }

    pub fn note_refusal(&mut self, id: u32) {
        let (s, n) = { let h = &self.handles[id as usize]; (h.store, h.node) };
        let v = &mut self.stores[s as usize].refused;
        if !v.contains(&n) { v.push(n); }
    }
    /// After an exclusive slice was overwritten in place: which items now live at start.. of the
    /// store, each still alive or one of `created`. Returns false if a slot holds no live item.
    pub fn refill<T: crate::item::Item>(&mut self, s: u32, start: usize, sl: &[T], created: &mut Vec<u32>) -> bool {
        for (i, t) in sl.iter().enumerate() {
            let Some(id) = t.ident() else { return false };
            let p = &mut self.stores[s as usize].pos[start + i];
            if id == p.item { if p.live { continue; } return false; }
            let Some(k) = created.iter().position(|&x| x == id) else { return false };
            if p.live || self.items[id as usize].state != IS::Out { return false; }
            created.swap_remove(k);
            Self::acc_write(p, "overwrite", 0, start + i);
            p.item = id;
            p.live = true;
            self.stores[s as usize].nlive += 1;
            self.items[id as usize].state = IS::In(s, (start + i) as u32);
            self.out_count -= 1;
        }
        true
    }

    // ---- operations ----------------------------------------------------------------------------
    pub fn begin(&mut self, op: u8, stores: &[u32]) {
        self.seq += 1;
        let t = rt().cur;
        self.last_op[t] = op;
        let mut fr = Frame { op, stores: [NONE; 4], ns: 0, created: vec![], creating: false, dpanic: false, panicked: false, start_seq: self.seq };
        for &s in stores {
            if fr.stores[..fr.ns].contains(&s) || fr.ns == 4 { continue; }
            fr.stores[fr.ns] = s;
            fr.ns += 1;
            if self.stores[s as usize].inflight > 0 {
                probe(Pr::Conc);
                for u in 0..NT { if u != t { if let Some(g) = self.frames[u].last() { if g.stores[..g.ns].contains(&s) {
                    let (a, b) = (op.min(g.op), op.max(g.op));
                    let k = a as usize * 80 + b as usize;
                    if self.overlaps.len() < 6400 { self.overlaps.resize(6400, 0); }
                    self.overlaps[k] = self.overlaps[k].saturating_add(1);
                } } } }
            }
            let st = &mut self.stores[s as usize];
            st.inflight += 1;
            st.opseq += 1;
        }
        self.hist = simrt::rng::mix(self.hist ^ ((t as u64) << 8 | op as u64 | 1 << 20));
        self.frames[t].push(fr);
    }
    pub fn end(&mut self, result: u32) {
        self.seq += 1;
        let r = rt();
        let t = r.cur;
        self.hist = simrt::rng::mix(self.hist ^ ((t as u64) << 8 | 2 << 20 | (result as u64) << 24));
        let fr = match self.frames[t].pop() { Some(f) => f, None => { r.internal_error = Some("frame underflow".into()); return; } };
        for &id in &fr.created {
            if self.items[id as usize].state == IS::Out && self.hasids() {
                soft("copy-leak", format!("an item created by element clone or by a source iterator is neither in the result nor destroyed{}", if fr.panicked { " after the operation panicked" } else { "" }));
            }
        }
        for &s in &fr.stores[..fr.ns] {
            let e = r.epoch();
            let st = &mut self.stores[s as usize];
            st.inflight -= 1;
            st.last_end[t] = e;
            if fr.dpanic {
                for p in &mut st.pos { if p.live && p.cover == 0 && !p.leak_ok { p.leak_ok = true; probe(Pr::LeakOk); } }
            }
            if st.inflight == 0 { self.quiesce(s, fr.op); }
        }
        if (arena::lib_bytes() > self.mem_high || self.seq & 63 == 0) && !self.mem_off && self.frames.iter().all(|f| f.is_empty()) { self.memory(fr.op); }
    }
    /// Nothing is in progress: the library's memory is that of the trees, storages and handles there are.
    fn memory(&mut self, op: u8) {
        let (live, bytes) = (arena::live_lib(), arena::lib_bytes());
        self.mem_high = self.mem_high.max(bytes);
        if (live <= 16 && bytes <= 2 * MEM_BYTES) || self.any_immortal { return; }
        let (mut handles, mut stores, mut nodes, mut trees) = (0usize, 0usize, 0usize, vec![]);
        for st in &self.stores {
            if st.handles.is_empty() { continue; }
            stores += 1;
            handles += st.handles.len();
            for &h in &st.handles {
                let g = &self.handles[h as usize];
                if g.n > 0 { handles += g.n.ilog2() as usize; } // a parts iterator may hold two parts per level
                let n = g.node;
                if n == NONE { continue; }
                let t = self.nodes[n as usize].tree;
                if !trees.contains(&t) { trees.push(t); nodes += self.tree_nodes[t as usize] as usize; }
            }
        }
        probe(Pr::Memory);
        let units = 2 + 2 * nodes + handles + stores;
        for (what, n, most) in [("allocations", live, 8 * units), ("bytes", bytes, MEM_BYTES * units)] {
            if n > most { soft("memory-growth", format!("after {} with no operation in progress the library holds {n} {what} for {handles} handles on {stores} storages with {nodes} subslices ever looked at (expected at most {most})", crate::ops::op_name(op))); }
        }
    }
    fn hasids(&self) -> bool { self.live_rd_sample != 1 }
    /// No operation is in progress on this store: everything uncovered must be gone.
    fn quiesce(&mut self, s: u32, op: u8) {
        let st = &self.stores[s as usize];
        if !st.ready { return; }
        probe(Pr::Quiet);
        if !st.handles.is_empty() { probe(Pr::QuietHandles); }
        if st.nlive > 0 {
            let lost = st.pos.iter().filter(|p| p.live && p.cover == 0 && !p.leak_ok).count();
            if lost > st.anon {
                let i = st.pos.iter().position(|p| p.live && p.cover == 0 && !p.leak_ok).unwrap_or(0);
                soft("item-leak", format!("after {} with no operation in progress, {} (such as item {i} of {}) covered by no handle not destroyed", crate::ops::op_name(op),
                    if lost - st.anon == 1 { "one item is".into() } else { format!("{} items are", lost - st.anon) }, st.n));
            }
            if st.anon > 0 { self.settle(s); }
        }
        let st = &self.stores[s as usize];
        if st.block.is_some() && !st.freed && !st.immortal {
            let any = st.handles.iter().any(|&h| self.handles[h as usize].kind != HK::W);
            if !any { soft("storage-leak", format!("after {} no slice or iterator is left on a storage of {} items, but it was not released", crate::ops::op_name(op), st.n)); }
        }
    }
    // ---- item accesses -------------------------------------------------------------------------
    fn locate(&self, addr: usize) -> Option<(u32, usize)> {
        for (s, st) in self.stores.iter().enumerate().rev() {
            if st.isize_ > 0 && !st.freed && st.n > 0 && addr >= st.base && addr < st.base + st.n * st.isize_ {
                return Some((s as u32, (addr - st.base) / st.isize_));
            }
        }
        None
    }
    fn acc_write(p: &mut Pos, what: &str, n: usize, i: usize) {
        let r = rt();
        probe(Pr::Races);
        let kind = match what { "destruction" => "race-destroy", "release of the storage" => "race-release", _ => "data-race" };
        if !r.hb(p.wt as usize, p.we) { soft(kind, format!("{what} of item {i}/{n} by task {} races with a write by task {}", r.cur, p.wt)); }
        for t in 0..NT {
            if !r.hb(t, p.rd[t]) { soft(kind, format!("{what} of item {i}/{n} by task {} races with a read by task {t}", r.cur)); }
        }
        p.wt = r.cur as u8;
        p.we = r.epoch();
    }
    fn acc_read(p: &mut Pos, what: &str, n: usize, i: usize) {
        let r = rt();
        probe(Pr::Races);
        if !r.hb(p.wt as usize, p.we) { soft("data-race", format!("{what} of item {i}/{n} by task {} races with a write by task {}", r.cur, p.wt)); }
        p.rd[r.cur] = r.epoch();
    }
    fn destroy(&mut self, s: u32, i: usize, in_place: bool) {
        if rt().trace.is_some() { rt().tr(format!("    item {i} of storage {s} destroyed{}", if in_place { "" } else { " outside its storage" })); }
        let st = &mut self.stores[s as usize];
        let n = st.n;
        let p = &mut st.pos[i];
        if !p.live { bad("double-drop", format!("item {i} of {n} is destroyed a second time")); }
        if p.cover > 0 {
            let who: Vec<String> = st.handles.iter().map(|&h| &self.handles[h as usize]).filter(|h| h.kind != HK::W && h.state != HS::Dead && i >= h.start && i < h.start + h.len)
                .map(|h| format!("{:?}[{}..{}]", h.kind, h.start, h.start + h.len)).collect();
            bad("premature-drop", format!("item {i} of {n} is destroyed while {} still covers it", who.join(", ")));
        }
        if in_place && !st.zst { Self::acc_write(p, "destruction", n, i); }
        p.live = false;
        st.nlive -= 1;
        let id = p.item;
        self.items[id as usize].state = IS::Gone;
    }
    /// Reads through a handle: address, length, identity, liveness, ordering.
    pub fn check_view<T: crate::item::Item>(&mut self, id: u32, sl: &[T], kind: &'static str) {
        let h = self.handles[id as usize].clone();
        self.check_range(h.store, h.start, h.len, sl, kind)
    }
    pub fn check_range<T: crate::item::Item>(&mut self, store: u32, start: usize, len: usize, sl: &[T], kind: &'static str) {
        let st = &mut self.stores[store as usize];
        if sl.len() != len { bad(kind, format!("view has {} items, expected {len} (items {start}..{} of {})", sl.len(), start + len, st.n)); }
        if len == 0 { return; }
        let a = sl.as_ptr() as usize;
        if a % std::mem::align_of::<T>() != 0 { bad(kind, "view is misaligned".into()); }
        if !st.zst && a != st.base + start * st.isize_ {
            bad(kind, format!("view of items {start}..{} of {} is at the wrong address (offset {} bytes instead of {})", start + len, st.n, a.wrapping_sub(st.base) as isize, start * st.isize_));
        }
        if st.zst { return; }
        let step = if len <= 24 { 1 } else { len / 12 };
        let mut i = 0;
        while i < len {
            let p = &mut st.pos[start + i];
            if !p.live { bad("read-destroyed", format!("item {} of {} is visible after it was destroyed or moved out", start + i, st.n)); }
            Self::acc_read(p, "read", st.n, start + i);
            let it = self.items[p.item as usize];
            if !sl[i].matches(p.item, it.val) {
                bad(kind, format!("item {} of {} does not hold what was stored there", start + i, st.n));
            }
            i = if i == len - 1 { len } else { (i + step).min(len - 1) };
        }
    }
    pub fn write<T: crate::item::Item>(&mut self, store: u32, pos: usize, r: &mut T, val: u32) {
        let st = &mut self.stores[store as usize];
        let n = st.n;
        let p = &mut st.pos[pos];
        if !p.live { bad("read-destroyed", format!("item {pos} of {n} is writable after it was destroyed or moved out")); }
        if !st.zst { Self::acc_write(p, "write", n, pos); }
        let it = &mut self.items[p.item as usize];
        it.val = val;
        r.set(p.item, val);
    }
    /// An item was handed out by value.
    pub fn moved_out(&mut self, store: u32, pos: usize) -> u32 {
        let st = &mut self.stores[store as usize];
        let n = st.n;
        let p = &mut st.pos[pos];
        if !p.live { bad("double-drop", format!("item {pos} of {n} handed out although it was already destroyed or handed out")); }
        if !st.zst { Self::acc_write(p, "move", n, pos); }
        p.live = false;
        st.nlive -= 1;
        let id = p.item;
        self.items[id as usize].state = IS::Out;
        self.out_count += 1;
        id
    }
    /// Books the destroyed items without identity on uncovered positions, those given up after a
    /// panicking destructor last.
    fn settle(&mut self, s: u32) {
        let st = &mut self.stores[s as usize];
        for given_up in [false, true] {
            for p in st.pos.iter_mut() {
                if st.anon == 0 { return; }
                if p.live && p.cover == 0 && p.leak_ok == given_up {
                    p.live = false;
                    st.nlive -= 1;
                    st.anon -= 1;
                    self.items[p.item as usize].state = IS::Gone;
                }
            }
        }
        if st.anon > 0 { bad("double-drop", format!("{} more items were destroyed than handles gave up", st.anon)); }
    }
    pub fn pos_item(&self, store: u32, pos: usize) -> (u32, u32) { let id = self.stores[store as usize].pos[pos].item; (id, self.items[id as usize].val) }

    /// Nobody else's unfinished or unsynchronised business on this store?
    pub fn sole_actor(&self, store: u32) -> bool {
        let st = &self.stores[store as usize];
        let r = rt();
        st.inflight == 1 && (0..NT).all(|t| t == r.cur || r.hb(t, st.last_end[t]))
    }
}

/// Called by the allocator when a store's buffer is freed.
pub fn on_free(s: u32, _addr: usize) {
    let w = w();
    if !w.on || !rt().active { return; }
    probe(Pr::Released);
    let st = &mut w.stores[s as usize];
    st.freed = true;
    let n = st.n;
    if st.ncover > 0 || st.handles.iter().any(|&h| { let h = &w.handles[h as usize]; h.kind != HK::W && h.len > 0 }) {
        bad("premature-release", format!("storage of {n} items released while a slice or iterator on it is alive"));
    }
    // An operation may move items out, release the storage and destroy them only then: while one is
    // in progress here, its end (`quiesce`) decides whether an item was lost.
    let busy = w.frames[rt().cur].iter().any(|f| f.dpanic || f.stores[..f.ns].contains(&s));
    let mut anon = st.anon;
    for (i, p) in st.pos.iter_mut().enumerate() {
        if p.live && !p.leak_ok && !busy { if anon > 0 { anon -= 1; continue; } soft("item-leak", format!("storage released although item {i} of {n} was not destroyed")); }
        World::acc_write(p, "release of the storage", n, i);
    }
}
/// A node of a tree, a handle or a storage may take any small number of allocations and bytes.
pub const MEM_BYTES: usize = 512;
pub struct Injected;

/// Runs `f` as user code called from inside the library.
struct Cb { old: bool }
impl Drop for Cb { fn drop(&mut self) { arena::lib_restore(self.old); } }

pub fn on_item_drop(it: ItemRef) {
    let r = rt();
    let w = w();
    if !w.on || !r.active { return; }
    let _g = Cb { old: arena::lib_off() };
    let t = r.cur;
    let hd = w.harness_drop[t] > 0;
    let zst = it.size == 0;
    if !zst && !hd {
        if let Some((s, i)) = w.locate(it.addr) {
            let st = &w.stores[s as usize];
            if (it.addr - st.base) % st.isize_ != 0 { bad("garbage-drop", "destructor run at an address between two items".into()); }
            let p = &st.pos[i];
            if it.hasid && it.id != Some(p.item) {
                if p.live { bad("garbage-drop", format!("destructor run on item {i} of {} whose contents are corrupt", st.n)); }
                bad("double-drop", format!("destructor run on item {i} of {} which was already destroyed or moved out", st.n));
            }
            w.destroy(s, i, true);
            return after_drop(hd);
        }
    }
    if it.hasid {
        let id = match it.id { Some(id) if (id as usize) < w.items.len() => id, _ => bad("garbage-drop", "destructor run on memory that holds no item".into()) };
        match w.items[id as usize].state {
            IS::Gone => bad("double-drop", "an item is destroyed a second time".into()),
            IS::Out => { w.items[id as usize].state = IS::Gone; w.out_count -= 1; }
            IS::In(s, i) => {
                let st = &w.stores[s as usize];
                if st.freed && !zst && it.addr == st.base + i as usize * st.isize_ { bad("premature-release", format!("item {i} of {} is destroyed in place after its storage was released", st.n)); }
                w.destroy(s, i as usize, false)
            }
        }
        return after_drop(hd);
    }
    // no identity: account by count
    if hd { w.out_count -= 1; return after_drop(hd); }
    let creating = w.frames[t].last().map_or(false, |f| f.creating);
    if creating && w.out_count > 0 { w.out_count -= 1; return after_drop(hd); }
    let mut cand: Vec<u32> = w.frames[t].iter().rev().flat_map(|f| f.stores[..f.ns].to_vec()).collect();
    if zst || cand.is_empty() { for s in 0..w.stores.len() as u32 { cand.push(s); } }
    for &s in &cand {
        let st = &w.stores[s as usize];
        if st.pos.iter().filter(|p| p.live && p.cover == 0).count() > st.anon {
            w.stores[s as usize].anon += 1;
            if r.trace.is_some() { r.tr(format!("    an item of storage {s} destroyed")); }
            return after_drop(hd);
        }
    }
    if w.out_count > 0 { w.out_count -= 1; return after_drop(hd); }
    bad("double-drop", "an item is destroyed although every item not yet destroyed is still covered by a handle".into());
}
/// Code of the items calls back into the library.
pub fn maybe_reenter(rarer: u32) {
    let r = rt();
    let w = w();
    let t = r.cur;
    let p = r.cfg.reent / rarer;
    let v = if p > 0 && w.depth[t] < 2 { r.fault(rt::K_REENT, p, 96) } else { 0 };
    if v == 0 { return; }
    if let Some(f) = w.reenter {
        w.faulted = true;
        probe(Pr::ReentrantOps);
        w.depth[t] += 1;
        f(v - 1);
        w.depth[t] -= 1;
    }
}
fn after_drop(hd: bool) {
    if hd { return; }
    let r = rt();
    let w = w();
    let t = r.cur;
    r.yield_point(20);
    let unwinding = r.tasks[t].unwinding > 0;
    if unwinding { probe(Pr::Unwind); }
    let c = r.cfg.cstall;
    if c > 0 { r.callback_stall(c); }
    maybe_reenter(1);
    let p = r.cfg.dpanic;
    if p > 0 && !unwinding && r.fault(rt::K_DPANIC, p, 1) > 0 {
        w.faulted = true;
        for f in &mut w.frames[t] { f.dpanic = true; }
        probe(Pr::DPanics);
        std::panic::panic_any(Injected);
    }
}
static mut QUIET: bool = false;
/// Runs `f` with comparisons of items unobserved (the oracle's own use of them).
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let old = arena::lib_off();
    unsafe { QUIET = true; }
    let r = f();
    unsafe { QUIET = false; }
    arena::lib_restore(old);
    r
}
/// An item is compared, hashed or formatted.
pub fn on_item_look(it: ItemRef) {
    let r = rt();
    let w = w();
    if unsafe { QUIET } || !w.on || !r.active { return; }
    let _g = Cb { old: arena::lib_off() };
    let t = r.cur;
    if it.size > 0 {
        match w.locate(it.addr) {
            Some((s, i)) => {
                let st = &mut w.stores[s as usize];
                let n = st.n;
                let p = &mut st.pos[i];
                if !p.live || (it.hasid && it.id != Some(p.item)) { bad("read-destroyed", format!("item {i} of {n} is compared or formatted after it was destroyed or moved out")); }
                World::acc_read(p, "comparison", n, i);
            }
            None => if it.hasid && it.id.is_none() { bad("read-destroyed", "memory that holds no item is compared or formatted".into()) },
        }
    }
    r.yield_point(26);
    probe(Pr::Looks);
    let c = r.cfg.cstall;
    if c > 0 { r.callback_stall(c); }
    maybe_reenter(4);
    let p = r.cfg.cpanic / 3;
    if p > 0 && r.tasks[t].unwinding == 0 && r.fault(rt::K_CPANIC, p, 1) > 0 {
        w.faulted = true;
        probe(Pr::LookPanics);
        std::panic::panic_any(Injected);
    }
}
/// Returns (id, val) for the copy.
pub fn on_item_clone(it: ItemRef) -> (u32, u32) {
    let r = rt();
    let w = w();
    if !w.on || !r.active { return (0, 0); }
    let _g = Cb { old: arena::lib_off() };
    let t = r.cur;
    r.yield_point(21);
    let c = r.cfg.cstall;
    if c > 0 { r.callback_stall(c); }
    let p = r.cfg.cpanic;
    if p > 0 && r.tasks[t].unwinding == 0 && r.fault(rt::K_CPANIC, p, 1) > 0 {
        w.faulted = true;
        probe(Pr::CPanics);
        std::panic::panic_any(Injected);
    }
    maybe_reenter(3);
    let mut src = NONE;
    if it.size > 0 {
        match w.locate(it.addr) {
            Some((s, i)) => {
                let st = &mut w.stores[s as usize];
                let n = st.n;
                let p = &mut st.pos[i];
                if !p.live { bad("read-destroyed", format!("item {i} of {n} is cloned after it was destroyed or moved out")); }
                if it.hasid && it.id != Some(p.item) { bad("garbage-drop", "clone of corrupt item".into()); }
                World::acc_read(p, "clone", n, i);
                src = p.item;
            }
            None => if it.hasid { match it.id { Some(id) if (id as usize) < w.items.len() && w.items[id as usize].state != IS::Gone => src = id, _ => bad("read-destroyed", "clone of memory that holds no live item".into()) } },
        }
    }
    let val = if src != NONE { w.items[src as usize].val } else { 0 };
    let id = w.new_item(val, src);
    if let Some(f) = w.frames[t].last_mut() { f.created.push(id); }
    (id, val)
}
#[allow(dead_code)]
pub fn vc() -> VC { *rt().vc() }
