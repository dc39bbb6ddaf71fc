//! Scheduler, choice log, vector clocks and run state.
use crate::arena;
use crate::atomics::Loc;
use crate::co::{switch, Stack};
use crate::rng::Rng;

pub const NT: usize = 8;

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct VC(pub [u32; NT]);
impl VC {
    #[inline]
    pub fn join(&mut self, o: &VC) {
        for i in 0..NT { if o.0[i] > self.0[i] { self.0[i] = o.0[i]; } }
    }
    /// self <= o
    #[inline]
    pub fn le(&self, o: &VC) -> bool { (0..NT).all(|i| self.0[i] <= o.0[i]) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TState { Unused, Ready, Rendezvous, Join, Done }

pub struct Task {
    pub state: TState,
    sp: usize,
    stack: Option<Stack>,
    entry: Option<Box<dyn FnOnce()>>,
    pub vc: VC,
    pub acq_pend: VC,
    pub rel_fence: VC,
    pub op: u32,
    ctr: [u32; NKINDS],
    pub stalled_until: u64,
    pub spin: u32,
    pub last_load: (u32, u32),
    prio: u32,
    pub unwinding: u32,
}
impl Task {
    fn new() -> Task {
        Task { state: TState::Unused, sp: 0, stack: None, entry: None, vc: VC::default(), acq_pend: VC::default(),
            rel_fence: VC::default(), op: 0, ctr: [0; NKINDS], stalled_until: 0, spin: 0, last_load: (!0, 0), prio: 0, unwinding: 0 }
    }
}

/// Kinds of nondeterministic choice.
pub const K_SCHED: usize = 0; // preempt here? to whom, and stall the preempted task?
pub const K_NEXT: usize = 1; // who runs when the running task ends or waits
pub const K_STALE: usize = 2; // which of the permitted values an atomic load returns
pub const K_SPUR: usize = 3; // spurious failure of a weak compare-exchange
pub const K_DPANIC: usize = 4; // element destructor panics
pub const K_CPANIC: usize = 5; // element clone panics
pub const K_IPANIC: usize = 6; // source iterator panics
pub const K_REENT: usize = 7; // item code re-enters the library
pub const K_REUSE: usize = 8; // allocator hands out a just freed block
pub const K_CSTALL: usize = 9; // preemption + stall inside an element callback
pub const NKINDS: usize = 10;
pub const KIND_NAMES: [&str; NKINDS] = ["preempt", "next", "stale_read", "spurious_cas_failure", "destructor_panic", "clone_panic", "source_iterator_panic", "reentrant_call", "allocator_reuse", "stall_in_callback"];

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub policy: u8,      // 0 random walk, 1 PCT
    pub switch_den: u32, // mean steps between preemptions (random walk)
    pub pct_points: u32,
    pub pct_len: u32,
    pub stall_pct: u32,  // percent of preemptions that also stall
    pub stale_pct: u32,
    pub spur_pct: u32,
    pub dpanic: u32,     // per-mille of element destructor calls that panic
    pub cpanic: u32,
    pub ipanic: u32,
    pub reent: u32,
    pub cstall: u32,     // per-mille of callbacks that preempt+stall
    pub reuse: bool,     // allocator reuses freed blocks at once
    pub fair_after: u64,
    pub max_steps: u64,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: &'static str, pub msg: String, pub task: usize, pub op: u32, pub step: u64 }

pub enum Mode { Record, Replay(Vec<(u64, u32)>) }

pub struct Rt {
    pub active: bool,
    pub solo: bool,
    pub cur: usize,
    pub tasks: [Task; NT],
    main_sp: usize,
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub mode: Mode,
    pub rng: Rng,
    pub log: Vec<(u64, u32)>,
    pub cfg: Cfg,
    pub violation: Option<Violation>,
    pub locs: Vec<Loc>,
    pub nlocs: usize,
    pub gen: u32,
    pub sc_clock: VC,
    next_switch: u32,
    pct_pts: Vec<u64>,
    low_prio: u32,
    nready: usize,
    pub stat: [u64; 256],
    pub trace: Option<Vec<String>>,
    /// set when the runtime itself is broken (reported as a harness error, never as a violation)
    pub internal_error: Option<String>,
    pub log_sink: *mut u64,
    pub log_sink_cap: usize,
    free_stacks: Vec<Stack>,
    /// extra description printed by `violate`
    pub panic_msg: String,
    /// violation kinds the current check does not decide
    pub ignore: fn(&str) -> bool,
    pub ignored: u64,
}

static mut RT: *mut Rt = std::ptr::null_mut();

#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe {
        if RT.is_null() { init(); }
        &mut *RT
    }
}
#[cold]
fn init() {
    let old = arena::lib_off();
    let r = Box::new(Rt {
        active: false, solo: false, cur: 0, tasks: std::array::from_fn(|_| Task::new()), main_sp: 0, steps: 0, switches: 0, hash: 0,
        mode: Mode::Record, rng: Rng::new(0), log: vec![], cfg: Cfg::default(), violation: None, locs: vec![], nlocs: 0, gen: 1,
        sc_clock: VC::default(), next_switch: 0, pct_pts: vec![], low_prio: 0, nready: 0, stat: [0; 256], trace: None,
        internal_error: None, log_sink: std::ptr::null_mut(), log_sink_cap: 0, free_stacks: vec![], panic_msg: String::new(), ignore: |_| false, ignored: 0,
    });
    unsafe { RT = Box::into_raw(r); }
    arena::lib_restore(old);
}

pub const S_STEPS: usize = 0;
pub const S_SWITCH: usize = 1;
pub const S_STALL: usize = 2;
pub const S_SPINSWITCH: usize = 3;
pub const S_FAIR: usize = 4;
pub const S_CASFAIL: usize = 5;
pub const S_UNSTALL: usize = 6;
pub const S_FAULT0: usize = 8; // + choice kind: how often each kind took a non-default value
pub const S_MULTISTALE: usize = 20; // loads for which more than one value was permitted
pub const S_LOADS: usize = 21;
pub const S_RMW: usize = 22;
pub const S_STORES: usize = 23;
pub const S_ARC_NEW: usize = 24;
pub const S_ALLOC: usize = 25;
pub const S_REUSED: usize = 26;
pub const S_USER: usize = 40;

impl Rt {
    pub fn begin(&mut self, cfg: Cfg, mode: Mode, seed: u64) {
        self.cfg = cfg;
        self.mode = mode;
        self.rng = Rng::new(seed);
        self.log.clear();
        self.violation = None;
        self.steps = 0;
        self.switches = 0;
        self.hash = 0;
        self.gen = self.gen.wrapping_add(1).max(1);
        self.nlocs = 0;
        self.sc_clock = VC::default();
        self.panic_msg.clear();
        self.ignored = 0;
        for t in 0..NT {
            if let Some(s) = self.tasks[t].stack.take() { self.free_stacks.push(s); }
            // an abandoned entry closure only owns plain ids
            self.tasks[t] = Task::new();
            self.tasks[t].vc.0[t] = 1;
        }
        self.next_switch = self.draw_gap();
        self.pct_pts.clear();
        if self.cfg.policy == 1 {
            for _ in 0..self.cfg.pct_points { let v = self.rng.below(self.cfg.pct_len.max(1)) as u64; self.pct_pts.push(v); }
            self.pct_pts.sort();
            for t in 0..NT { self.tasks[t].prio = 1000 + self.rng.below(1000) * 8 + t as u32; }
            self.low_prio = 999;
        }
        self.nready = 0;
    }
    fn draw_gap(&mut self) -> u32 {
        let d = self.cfg.switch_den.max(1);
        1 + self.rng.below(2 * d)
    }
    pub fn spawn(&mut self, t: usize, f: Box<dyn FnOnce()>) {
        let stack = self.free_stacks.pop().unwrap_or_else(Stack::new);
        let task = &mut self.tasks[t];
        task.sp = stack.prepare(co_entry);
        task.stack = Some(stack);
        task.entry = Some(f);
        task.state = TState::Ready;
        self.nready += 1;
    }
    /// spawn edge: everything the current task did happens before task t starts
    pub fn spawn_edge(&mut self, t: usize) {
        let vc = self.tasks[self.cur].vc;
        self.tasks[t].vc.join(&vc);
        self.tick();
    }
    pub fn join_edge(&mut self, t: usize) {
        let vc = self.tasks[t].vc;
        let c = self.cur;
        self.tasks[c].vc.join(&vc);
    }
    #[inline]
    pub fn tick(&mut self) { let c = self.cur; self.tasks[c].vc.0[c] += 1; }
    #[inline]
    pub fn vc(&self) -> &VC { &self.tasks[self.cur].vc }
    #[inline]
    pub fn epoch(&self) -> u32 { self.tasks[self.cur].vc.0[self.cur] }
    /// is the event (task, epoch) ordered before the current point of the current task?
    #[inline]
    pub fn hb(&self, task: usize, epoch: u32) -> bool { epoch <= self.tasks[self.cur].vc.0[task] }

    /// Runs task 0 (already spawned) until every task is done or a violation ends the run.
    pub fn run(&mut self) {
        self.active = true;
        self.cur = 0;
        let to = self.tasks[0].sp;
        let save: *mut usize = &mut self.main_sp;
        unsafe { switch(&mut *save, to); }
        self.active = false;
        arena::lib_restore(false);
        self.stat[S_STEPS] += self.steps;
        self.stat[S_SWITCH] += self.switches;
    }
    pub fn set_op(&mut self, op: u32) {
        let t = &mut self.tasks[self.cur];
        t.op = op;
        t.ctr = [0; NKINDS];
        t.spin = 0;
    }
    pub fn fair(&self) -> bool { self.steps >= self.cfg.fair_after }

    fn key(&mut self, kind: usize) -> u64 {
        let c = self.cur;
        let t = &mut self.tasks[c];
        let k = t.ctr[kind];
        t.ctr[kind] += 1;
        ((kind as u64) << 60) | ((c as u64) << 56) | ((t.op as u64 & 0xff_ffff) << 32) | k as u64
    }
    fn record(&mut self, key: u64, v: u32) {
        let n = self.log.len();
        self.log.push((key, v));
        if !self.log_sink.is_null() && n + 1 < self.log_sink_cap {
            unsafe {
                *self.log_sink.add(1 + 2 * n) = key;
                *self.log_sink.add(2 + 2 * n) = v as u64;
                *self.log_sink = n as u64 + 1;
            }
        }
    }
    /// The single funnel for nondeterminism. `policy` decides in record mode; 0 is the default.
    #[inline]
    fn choice(&mut self, kind: usize, policy: impl FnOnce(&mut Rt) -> u32) -> u32 {
        let key = self.key(kind);
        let v = match &self.mode {
            Mode::Record => { let v = policy(self); if v != 0 { self.record(key, v); } v }
            Mode::Replay(m) => match m.binary_search_by(|e| e.0.cmp(&key)) { Ok(i) => m[i].1, Err(_) => 0 },
        };
        if v != 0 {
            self.stat[S_FAULT0 + kind] += 1;
            if self.trace.is_some() { let s = format!("    choice {}={}", KIND_NAMES[kind], v); self.tr(s); }
        }
        v
    }
    pub fn tr(&mut self, s: String) {
        let (c, st) = (self.cur, self.steps);
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 { t.push(format!("[step {st} task {c}] {s}")); }
        }
    }
    /// A fault decision with probability permille/1000 and n variants (1..=n); 0 = no fault.
    pub fn fault(&mut self, kind: usize, permille: u32, n: u32) -> u32 {
        if !self.active { return 0; }
        let old = arena::lib_off();
        let fair = self.fair();
        let v = self.choice(kind, |r| if !fair && permille > 0 && r.rng.chance(permille, 1000) { 1 + r.rng.below(n) } else { 0 });
        arena::lib_restore(old);
        if fair { 0 } else { v.min(n) }
    }
    pub fn choose_stale(&mut self, floor_back: impl FnOnce(&mut Rt) -> u32) -> u32 {
        let pct = self.cfg.stale_pct;
        let mut fb = Some(floor_back);
        let v = self.choice(K_STALE, |r| {
            if pct > 0 && r.rng.chance(pct, 100) {
                let n = (fb.take().unwrap())(r);
                if n > 0 { r.stat[S_MULTISTALE] += 1; 1 + r.rng.below(n) } else { 0 }
            } else { 0 }
        });
        if v != 0 { if let Some(f) = fb { return v.min(f(self)); } }
        v
    }

    // ---- scheduling -------------------------------------------------------------------------
    fn eligible(&self, t: usize) -> bool {
        let k = &self.tasks[t];
        k.state == TState::Ready && k.stalled_until <= self.steps && k.spin < 4
    }
    fn next_cyclic(&self, pred: impl Fn(&Rt, usize) -> bool) -> Option<usize> {
        (1..=NT).map(|d| (self.cur + d) % NT).find(|&t| t != self.cur && pred(self, t))
    }
    fn switch_to(&mut self, t: usize) {
        if t == self.cur { return; }
        self.switches += 1;
        let from = self.cur;
        self.cur = t;
        if self.trace.is_some() { let s = format!("  -- switch from task {from}"); self.tr(s); }
        let to = self.tasks[t].sp;
        let save: *mut usize = &mut self.tasks[from].sp;
        unsafe { switch(&mut *save, to); }
    }
    /// Every atomic operation and every explicit interleaving point of the harness comes here.
    #[inline]
    pub fn yield_point(&mut self, desc: u32) {
        if !self.active { return; }
        self.steps += 1;
        self.hash = crate::rng::mix(self.hash ^ ((self.cur as u64) << 32 | desc as u64)).wrapping_add(self.steps);
        if self.steps >= self.cfg.max_steps { self.stuck(); }
        if self.nready <= 1 { return; }
        self.yield_slow();
    }
    fn stuck(&mut self) {
        let ops: Vec<String> = (0..NT).filter(|&t| self.tasks[t].state != TState::Unused && self.tasks[t].state != TState::Done)
            .map(|t| format!("task {t} in op {} ({:?}, spin {})", self.tasks[t].op, self.tasks[t].state, self.tasks[t].spin)).collect();
        self.violate("no-progress", format!("operations still unfinished after {} steps, the last {} of them with every task scheduled fairly and no faults: {}",
            self.steps, self.cfg.max_steps - self.cfg.fair_after, ops.join(", ")));
    }
    #[inline(never)]
    fn yield_slow(&mut self) {
        let c = self.cur;
        if self.fair() {
            if self.steps == self.cfg.fair_after { self.stat[S_FAIR] += 1; }
            if self.steps % 5 == 0 {
                if let Some(t) = self.next_cyclic(|r, t| r.tasks[t].state == TState::Ready) { self.switch_to(t); }
            }
            return;
        }
        if self.tasks[c].spin >= 4 { self.spin_switch(); return; }
        let v = self.choice(K_SCHED, |r| r.policy_switch());
        if v != 0 {
            let target = ((v - 1) % 8) as usize;
            let stall = (v - 1) / 8;
            if stall > 0 { self.stall(c, stall); }
            if target != c && self.tasks[target].state == TState::Ready {
                self.tasks[target].stalled_until = 0;
                self.switch_to(target);
            }
        }
    }
    pub fn stall(&mut self, t: usize, level: u32) {
        self.stat[S_STALL] += 1;
        let d = match level { 1 => 12, 2 => 60, 3 => 400, _ => 1 << 40 };
        self.tasks[t].stalled_until = self.steps + d;
    }
    fn spin_switch(&mut self) {
        let c = self.cur;
        self.stat[S_SPINSWITCH] += 1;
        self.tasks[c].spin = 3;
        if let Some(t) = self.next_cyclic(|r, t| r.eligible(t)) { self.tasks[c].spin = 4; self.switch_to(t); self.tasks[c].spin = 2; return; }
        // Everybody else is stalled or spinning too: end the stalls.
        for t in 0..NT { if self.tasks[t].stalled_until > self.steps { self.tasks[t].stalled_until = 0; self.stat[S_UNSTALL] += 1; } }
        if let Some(t) = self.next_cyclic(|r, t| r.tasks[t].state == TState::Ready) {
            self.tasks[t].spin = self.tasks[t].spin.min(3);
            self.switch_to(t);
        }
    }
    fn policy_switch(&mut self) -> u32 {
        let c = self.cur;
        if self.cfg.policy == 1 {
            let st = self.steps;
            if let Some(i) = self.pct_pts.iter().position(|&p| p == st) {
                let _ = i;
                self.tasks[c].prio = self.low_prio;
                self.low_prio = self.low_prio.saturating_sub(1);
            }
            let mut best = c;
            for t in 0..NT { if t != c && self.eligible(t) && self.tasks[t].prio > self.tasks[best].prio { best = t; } }
            return if best == c { 0 } else { 1 + best as u32 };
        }
        self.next_switch = self.next_switch.saturating_sub(1);
        if self.next_switch > 0 { return 0; }
        self.next_switch = self.draw_gap();
        let mut cand = [0usize; NT];
        let mut n = 0;
        for t in 0..NT { if t != c && self.eligible(t) { cand[n] = t; n += 1; } }
        if n == 0 { return 0; }
        let t = cand[self.rng.below(n as u32) as usize];
        let pct = self.cfg.stall_pct;
        let stall = if pct > 0 && self.rng.chance(pct, 100) { 1 + self.rng.below(4) } else { 0 };
        1 + t as u32 + 8 * stall
    }
    /// Preempt here and stall the current task (used from element callbacks).
    pub fn callback_stall(&mut self, permille: u32) {
        if !self.active || self.nready <= 1 { return; }
        let v = self.fault(K_CSTALL, permille, 4);
        if v > 0 {
            let c = self.cur;
            self.stall(c, v);
            let old = arena::lib_off();
            self.block_switch(true);
            arena::lib_restore(old);
        }
    }
    /// Leave the current task because it waits or ended (`still_ready` = merely stalled).
    fn block_switch(&mut self, still_ready: bool) {
        let mut cand = [0usize; NT];
        let mut n = 0;
        for d in 1..NT { let t = (self.cur + d) % NT; if self.eligible(t) { cand[n] = t; n += 1; } }
        if n == 0 {
            if still_ready { return; }
            for d in 1..NT { let t = (self.cur + d) % NT; if self.tasks[t].state == TState::Ready { cand[n] = t; n += 1; } }
            if n == 0 { self.release_waiters(); 
                if self.tasks[self.cur].state == TState::Ready { return; }
                for d in 1..NT { let t = (self.cur + d) % NT; if self.tasks[t].state == TState::Ready { cand[n] = t; n += 1; } }
            }
        }
        if n == 0 {
            // everything is done: back to the host
            let to = self.main_sp;
            let c = self.cur;
            let save: *mut usize = &mut self.tasks[c].sp;
            unsafe { switch(&mut *save, to); }
            return;
        }
        let v = if n > 1 { let nn = n as u32; self.choice(K_NEXT, |r| r.rng.below(nn)).min(nn - 1) } else { 0 };
        let t = cand[v as usize];
        self.tasks[t].stalled_until = 0;
        self.tasks[t].spin = 0;
        self.switch_to(t);
    }
    fn release_waiters(&mut self) {
        let mut any = false;
        for t in 0..NT {
            if self.tasks[t].state == TState::Rendezvous { self.tasks[t].state = TState::Ready; self.nready += 1; any = true; }
        }
        if !any && (1..NT).all(|t| matches!(self.tasks[t].state, TState::Done | TState::Unused)) && self.tasks[0].state == TState::Join {
            self.tasks[0].state = TState::Ready;
            self.nready += 1;
        }
    }
    /// Waits until every other running task waits too (a timing coincidence, not a synchronisation edge).
    pub fn rendezvous(&mut self) {
        let c = self.cur;
        self.tasks[c].state = TState::Rendezvous;
        self.nready -= 1;
        self.block_switch(false);
    }
    /// Task 0 waits for all others.
    pub fn join_all(&mut self) {
        if (1..NT).all(|t| matches!(self.tasks[t].state, TState::Done | TState::Unused)) {} else {
            self.tasks[0].state = TState::Join;
            self.nready -= 1;
            self.block_switch(false);
        }
        for t in 1..NT { self.join_edge(t); }
    }
    fn finish(&mut self) -> ! {
        let c = self.cur;
        self.tasks[c].state = TState::Done;
        self.nready -= 1;
        self.block_switch(false);
        unreachable!("finished task resumed");
    }
    /// Reports a violation of a kind the run can survive: one the current check does not decide is
    /// only counted.
    pub fn violate_soft(&mut self, kind: &'static str, msg: impl FnOnce() -> String) {
        if self.active && (self.ignore)(kind) {
            self.ignored += 1;
            return;
        }
        let old = arena::lib_off();
        let m = msg();
        arena::lib_restore(old);
        self.violate(kind, m)
    }
    /// Reports a violation and ends the run at once.
    pub fn violate(&mut self, kind: &'static str, msg: String) -> ! {
        arena::lib_restore(false);
        self.set_violation(kind, msg);
        if !self.active { panic!("violation outside a run: {:?}", self.violation); }
        let to = self.main_sp;
        let c = self.cur;
        let save: *mut usize = &mut self.tasks[c].sp;
        unsafe { switch(&mut *save, to); }
        unreachable!();
    }
    pub fn set_violation(&mut self, kind: &'static str, msg: String) {
        if self.violation.is_none() {
            let (task, step) = (self.cur, self.steps);
            let op = self.tasks[task].op;
            if self.trace.is_some() { let s = format!("VIOLATION {kind}: {msg}"); self.tr(s); }
            self.violation = Some(Violation { kind, msg, task, op, step });
        }
    }
}

extern "C" fn co_entry() -> ! {
    arena::lib_restore(false);
    let r = rt();
    let f = r.tasks[r.cur].entry.take().expect("entry");
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    arena::lib_restore(false);
    if res.is_err() {
        let m = rt().panic_msg.clone();
        rt().internal_error = Some(format!("panic escaped a task: {m}"));
    }
    rt().finish()
}
