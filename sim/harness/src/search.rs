//! Seeded search: workers, violation handling, minimisation, replay and evidence.
use crate::gen::{gen, run_seed, PROPS};
use crate::ops::*;
use crate::replay::{self, Replay};
use crate::sys::{self, End};
use crate::world::{w, Pr, PROBES, U};
use simrt::rt::*;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

const HARD: &[&str] = &["double-drop", "premature-drop", "read-destroyed", "garbage-drop", "use-after-free", "double-free", "bad-free", "bad-free-layout", "heap-overflow", "uaf-write",
    "premature-release", "unexpected-panic", "no-progress", "crash", "hang"];
pub const KINDS: &[&str] = &["double-drop", "premature-drop", "read-destroyed", "garbage-drop", "use-after-free", "double-free", "bad-free", "bad-free-layout", "heap-overflow", "uaf-write",
    "premature-release", "unexpected-panic", "no-progress", "crash", "hang", "data-race", "race-destroy", "race-release", "unsynchronised-publication", "item-leak", "storage-leak", "memory-leak",
    "wrong-view", "wrong-view-mut", "overlap-into-mut", "overlap-get-mut", "getmut-with-weak", "overlap-upgrade", "overlap", "refused-mut", "refused-changed", "refused-upgrade", "upgrade-none", "upgrade-dead",
    "upgrade-wrong", "parts-view", "parts-len", "parts-count", "parts-badarg", "mutparts-view", "mutparts-len", "mutparts-count", "mutparts-badarg", "iter-view", "iter-len", "iter-wrong",
    "iter-badarg", "copy-mismatch", "copy-changed-original", "copy-leak", "compare", "format", "cross-home", "cross-race", "cross-denied", "rc-race", "memory-growth"];

/// Which properties a violation of this kind falsifies. `ops`: operation kinds executed in the run.
pub fn decides(prop: &str, kind: &str, ops: &[bool; NOPS], faulted: bool) -> bool {
    if HARD.contains(&kind) { return true; }
    if prop == "C14" && faulted { return !matches!(kind, "data-race" | "race-destroy" | "race-release" | "unsynchronised-publication" | "memory-growth"); }
    let any = |l: &[u8]| l.iter().any(|&o| ops[o as usize]);
    match kind {
        "data-race" | "unsynchronised-publication" => prop == "C09",
        "race-destroy" => matches!(prop, "C09" | "C01"),
        "race-release" => matches!(prop, "C09" | "C03"),
        "item-leak" => match prop {
            "C02" => true,
            "C07" => any(&[INTO_MUT, CONV_CYCLE]),
            "C10" => any(&[S_PARTS]),
            "C11" => any(&[M_PARTS]),
            "C12" => any(&[INTO_ITER]),
            "C15" => any(&[M_CLONE, M_CLONE_FROM, COLLECT]),
            _ => false,
        },
        "storage-leak" => prop == "C03",
        "memory-leak" => matches!(prop, "C03" | "C19"),
        "memory-growth" => prop == "C19",
        "wrong-view" => prop == "C04",
        "wrong-view-mut" => matches!(prop, "C04" | "C11" | "C15"),
        "overlap-into-mut" => matches!(prop, "C05"),
        "overlap-get-mut" | "getmut-with-weak" => prop == "C06",
        "overlap-upgrade" => matches!(prop, "C05" | "C06" | "C08"),
        "overlap" => matches!(prop, "C05" | "C11" | "C12" | "C15"),
        "refused-mut" | "refused-changed" => prop == "C07",
        "upgrade-none" | "upgrade-dead" => prop == "C08",
        "refused-upgrade" => matches!(prop, "C07" | "C08"),
        "upgrade-wrong" => matches!(prop, "C08" | "C04"),
        "copy-mismatch" | "copy-changed-original" => prop == "C15",
        "compare" | "format" => prop == "C16",
        "cross-home" | "cross-race" | "cross-denied" | "rc-race" => prop == "C17",
        "copy-leak" => matches!(prop, "C02" | "C14" | "C15"),
        k if k.starts_with("parts-") => prop == "C10",
        k if k.starts_with("mutparts-") => prop == "C11",
        k if k.starts_with("iter-") => prop == "C12",
        _ => true,
    }
}
static mut PROP: &str = "";
static mut OPS: [bool; NOPS] = [false; NOPS];
fn ignore_kind(kind: &str) -> bool { unsafe { !decides(PROP, kind, &OPS, w().faulted) } }

fn set_ops(c: &Case) { unsafe { OPS = [false; NOPS]; for p in &c.progs { for o in p { OPS[o.code as usize] = true; } } } }
fn relevant(v: &Violation) -> bool { !ignore_kind(v.kind) }

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome { pub kind: String, pub msg: String, pub task: usize, pub op: u32, pub step: u64, pub hash: u64, pub hist: u64, pub ignored: u64 }
impl Outcome { fn at(&self) -> String { format!("task {} op {} step {} schedule {:016x} history {:016x}", self.task, self.op, self.step, self.hash, self.hist) } }

const SINK: usize = 400_000;
struct Chan { out: &'static mut [u64], sink: &'static mut [u64] }
impl Chan {
    fn new() -> Chan { Chan { out: sys::shared(4096), sink: sys::shared(SINK) } }
    fn put(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(4000 * 8);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.out.as_mut_ptr().add(1) as *mut u8, n); }
        self.out[0] = n as u64;
    }
    fn get(&self) -> String {
        let n = self.out[0] as usize;
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(self.out.as_ptr().add(1) as *const u8, n) }).to_string()
    }
}
/// Runs one case in a child process.
fn in_child(ch: &mut Chan, prop: &'static str, case: &Case, choices: Option<&[(u64, u32)]>, trace_to: Option<&Replay>) -> Result<(Outcome, Vec<(u64, u32)>), String> {
    ch.out[0] = 0;
    ch.sink[0] = 0;
    let (outp, sinkp) = (ch.out.as_mut_ptr(), ch.sink.as_mut_ptr());
    let pid = sys::spawn(|| {
        let mut c2 = unsafe { Chan { out: std::slice::from_raw_parts_mut(outp, 4096), sink: std::slice::from_raw_parts_mut(sinkp, SINK) } };
        unsafe { PROP = prop; }
        set_ops(case);
        let r = rt();
        r.ignore = ignore_kind;
        r.log_sink = sinkp;
        r.log_sink_cap = SINK / 2 - 2;
        let mode = match choices { None => Mode::Record, Some(c) => { let mut v = c.to_vec(); v.sort(); Mode::Replay(v) } };
        dispatch(case, mode, trace_to.is_some());
        if let Some(e) = &r.internal_error { c2.put(e); return 3; }
        let (kind, msg, task, op, step) = match &r.violation { Some(v) => (v.kind.to_string(), v.msg.clone(), v.task, v.op, v.step), None => ("none".into(), String::new(), 0, 0, r.steps) };
        if let Some(rp) = trace_to {
            let mut rp = rp.clone();
            let o = Outcome { kind: kind.clone(), msg: msg.clone(), task, op, step, hash: r.hash, hist: w().hist, ignored: r.ignored };
            rp.kind = o.kind.clone();
            rp.msg = o.msg.clone();
            rp.at = o.at();
            let t = r.trace.take().unwrap_or_default();
            let _ = std::fs::write(format!("out/{}.trace.tmp", rp.property), replay::write(&rp, &t));
        }
        c2.put(&format!("{kind}\u{1}{task}\u{1}{op}\u{1}{step}\u{1}{}\u{1}{}\u{1}{}\u{1}{msg}", r.hash, w().hist, r.ignored));
        0
    });
    let t0 = Instant::now();
    let end = loop {
        if let Some(e) = sys::poll(pid) { break Some(e); }
        if t0.elapsed() > Duration::from_millis(3) { std::thread::sleep(Duration::from_micros(300)); }
        if t0.elapsed() > Duration::from_secs(4) && sys::cpu_ticks(pid) > 1000 { sys::kill9(pid); sys::reap(pid); break None; }
    };
    let n = ch.sink[0] as usize;
    let mut log = vec![];
    if choices.is_none() { for i in 0..n { log.push((ch.sink[1 + 2 * i], ch.sink[2 + 2 * i] as u32)); } }
    let plain = |k: &str, m: String| Outcome { kind: k.into(), msg: m, task: 0, op: 0, step: 0, hash: 0, hist: 0, ignored: 0 };
    match end {
        Some(End::Exit(0)) => {
            let s = ch.get();
            let f: Vec<&str> = s.splitn(8, '\u{1}').collect();
            if f.len() < 8 { return Err(format!("child gave no result: {s:?}")); }
            let g = |i: usize| f[i].parse::<u64>().unwrap_or(0);
            Ok((Outcome { kind: f[0].into(), msg: f[7].into(), task: g(1) as usize, op: g(2) as u32, step: g(3), hash: g(4), hist: g(5), ignored: g(6) }, log))
        }
        Some(End::Exit(c)) => Err(format!("child failed ({c}): {}", ch.get())),
        Some(End::Signal(9)) => Err("child was killed".into()),
        Some(End::Signal(s)) => Ok((plain("crash", format!("the process died with signal {s}")), log)),
        None => Ok((plain("hang", "a library call did not return and never reached an interleaving point".into()), log)),
    }
}

// ---- minimisation --------------------------------------------------------------------------------
struct Min<'a> { ch: &'a mut Chan, prop: &'static str, kind: String, tries: u32, deadline: Instant }
impl Min<'_> {
    fn test(&mut self, c: &Case, l: &[(u64, u32)]) -> bool {
        if self.tries == 0 || Instant::now() > self.deadline { return false; }
        self.tries -= 1;
        matches!(in_child(self.ch, self.prop, c, Some(l), None), Ok((o, _)) if o.kind == self.kind)
    }
    fn shrink_list<X: Clone>(&mut self, mut v: Vec<X>, mut ok: impl FnMut(&mut Self, &[X]) -> bool) -> Vec<X> {
        let mut n = v.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < v.len() {
                let mut c = v.clone();
                let e = (i + n).min(v.len());
                c.drain(i..e);
                if ok(self, &c) { v = c; any = true; } else { i = e; }
                if self.tries == 0 || Instant::now() > self.deadline { return v; }
            }
            if n == 1 && !any { return v; }
            if n == 1 { continue; }
            n = n.div_ceil(2).max(1);
        }
    }
    fn run(&mut self, mut c: Case, mut l: Vec<(u64, u32)>) -> (Case, Vec<(u64, u32)>) {
        // a log far longer than the ops that remain is first cut to what replay consults
        for round in 0..4 {
            let before = (c.progs.iter().map(|p| p.len()).sum::<usize>(), l.len());
            // whole programs
            for i in 0..c.progs.len() {
                if c.progs[i].is_empty() { continue; }
                let mut d = c.clone();
                d.progs[i].clear();
                if self.test(&d, &l) { c = d; }
            }
            // operations
            let flat: Vec<(usize, Op)> = c.progs.iter().enumerate().flat_map(|(i, p)| p.iter().map(move |&o| (i, o))).collect();
            let np = c.progs.len();
            let build = |f: &[(usize, Op)], c: &Case| { let mut d = c.clone(); d.progs = vec![vec![]; np]; for (i, o) in f { d.progs[*i].push(*o); } d };
            let (c0, l0) = (c.clone(), l.clone());
            let flat = self.shrink_list(flat, |m, f| m.test(&build(f, &c0), &l0));
            c = build(&flat, &c0);
            // drop choices belonging to removed operations
            let live: HashSet<u32> = flat.iter().map(|x| x.1.uid).chain([0, 0xffff]).collect();
            let l2: Vec<_> = l.iter().copied().filter(|x| live.contains(&((x.0 >> 32) as u32 & 0xff_ffff))).collect();
            if self.test(&c, &l2) { l = l2; }
            let c1 = c.clone();
            l = self.shrink_list(l, |m, x| m.test(&c1, x));
            // fewer tasks
            while c.ntasks > 1 && c.progs[c.ntasks].is_empty() {
                let mut d = c.clone();
                d.progs.remove(c.ntasks);
                d.ntasks -= 1;
                if self.test(&d, &l) { c = d; } else { break; }
            }
            // simpler values
            for i in 0..c.progs.len() { for j in 0..c.progs[i].len() {
                let o = c.progs[i][j];
                let mut cands = vec![];
                if o.a > 0 { cands.push(Op { a: 0, ..o }); if o.a > 8 { cands.push(Op { a: o.a / 2, ..o }); } cands.push(Op { a: o.a - 1, ..o }); }
                if o.b > 0 { cands.push(Op { b: 0, ..o }); if o.b > 64 { cands.push(Op { b: o.b % 11, ..o }); cands.push(Op { b: o.b & 7, ..o }); } }
                if o.c > 0 { cands.push(Op { c: 0, ..o }); if o.c > 15 { cands.push(Op { c: o.c & 15, ..o }); } }
                for k in cands { let mut d = c.clone(); d.progs[i][j] = k; if self.test(&d, &l) { c = d; break; } }
            } }
            for (k, _) in l.clone() {
                if let Some(p) = l.iter().position(|x| x.0 == k) {
                    let v = l[p].1;
                    if (k >> 60) as usize == K_SCHED && v > 8 { let mut m = l.clone(); m[p].1 = (v - 1) % 8 + 1; if self.test(&c, &m) { l = m; continue; } }
                    if v > 1 && (k >> 60) as usize != K_SCHED { let mut m = l.clone(); m[p].1 = 1; if self.test(&c, &m) { l = m; } }
                }
            }
            if round == 0 || c.fin_mode != 0 { let mut d = c.clone(); d.fin_mode = 0; if self.test(&d, &l) { c = d; } }
            if c.item != 0 { let mut d = c.clone(); d.item = 0; if self.test(&d, &l) { c = d; } }
            if c.cfg.reuse { let mut d = c.clone(); d.cfg.reuse = false; if self.test(&d, &l) { c = d; } }
            let after = (c.progs.iter().map(|p| p.len()).sum::<usize>(), l.len());
            if after == before && round > 0 { break; }
        }
        (c, l)
    }
}

// ---- workers ---------------------------------------------------------------------------------------
const H_IDX: usize = 0;
const H_RUNS: usize = 1;
const H_STATE: usize = 2;
const H_NONTRIV: usize = 3;
const H_NHASH: usize = 4;
const H_STOP: usize = 5;
const H_MULTI: usize = 6;
const H_MAXSTEPS: usize = 7;
const H_MAXHANDLES: usize = 8;
const H_IGN: usize = 9;
const O_STAT: usize = 16;
const O_OVER: usize = O_STAT + 256;
const O_FOREIGN: usize = O_OVER + 6400;
const O_FAM: usize = O_FOREIGN + 64;
const O_HASH: usize = 8192;
const HCAP: usize = 3 << 20;

fn worker(sh: &mut [u64], prop: &'static str, base: u64, first: u64, step: u64, secs: u64) -> i32 {
    let t0 = Instant::now();
    unsafe { PROP = prop; }
    let r = rt();
    r.ignore = ignore_kind;
    let mut i = first;
    let mut n = 0u64;
    loop {
        if n % 8 == 0 && (t0.elapsed().as_secs() >= secs || sh[H_STOP] != 0) { break; }
        sh[H_IDX] = i + 1;
        let case = gen(prop, run_seed(base, prop, i));
        set_ops(&case);
        let c0 = r.stat[U + Pr::Conc as usize] + r.stat[U + Pr::CrossTask as usize];
        let s0 = r.stat[S_STEPS];
        let f0: u64 = r.stat[S_FAULT0 + K_DPANIC..=S_FAULT0 + K_REENT].iter().sum::<u64>() + r.stat[U + Pr::BadArgs as usize];
        let q0: u64 = r.stat[U + 60..U + 60 + NOPS].iter().sum();
        dispatch(&case, Mode::Record, false);
        n += 1;
        sh[H_RUNS] += 1;
        sh[O_FAM + case.fam as usize] += 1;
        if case.ntasks > 1 { sh[H_MULTI] += 1; }
        sh[H_IGN] += r.ignored;
        let steps = r.stat[S_STEPS] - s0;
        sh[H_MAXSTEPS] = sh[H_MAXSTEPS].max(steps);
        sh[H_MAXHANDLES] = sh[H_MAXHANDLES].max(w().handles.len() as u64);
        let nontrivial = if case.ntasks > 1 { r.stat[U + Pr::Conc as usize] + r.stat[U + Pr::CrossTask as usize] > c0 } else {
            r.stat[S_FAULT0 + K_DPANIC..=S_FAULT0 + K_REENT].iter().sum::<u64>() + r.stat[U + Pr::BadArgs as usize] > f0 || r.stat[U + 60..U + 60 + NOPS].iter().sum::<u64>() - q0 >= 8
        };
        if nontrivial {
            sh[H_NONTRIV] += 1;
            let k = sh[H_NHASH] as usize;
            if k < HCAP { sh[O_HASH + k] = simrt::rng::mix(r.hash ^ w().hist.rotate_left(17) ^ (case.item as u64) << 3 ^ case.fam as u64); sh[H_NHASH] += 1; }
        }
        if r.internal_error.is_some() { eprintln!("rcsim: internal error in run {i}: {}", r.internal_error.as_ref().unwrap()); return 3; }
        if let Some(v) = &r.violation {
            if relevant(v) { flush(sh, r); sh[H_STATE] = 1; return 1; }
            let k = KINDS.iter().position(|x| *x == v.kind).unwrap_or(KINDS.len());
            sh[O_FOREIGN + k] += 1;
        }
        if n % 64 == 0 { flush(sh, r); }
        i += step;
    }
    flush(sh, r);
    0
}
fn flush(sh: &mut [u64], r: &Rt) {
    sh[O_STAT..O_STAT + 256].copy_from_slice(&r.stat);
    for (i, &v) in w().overlaps.iter().enumerate() { if i < 6400 { sh[O_OVER + i] = v as u64; } }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}
pub fn describe(c: &Case) -> String {
    let show = |p: &[Op]| p.iter().map(|o| format!("{}({},{},{})", op_name(o.code), if o.a & 0x4000 != 0 { format!("shared {}", o.a & 0xff) } else { o.a.to_string() }, o.b, o.c)).collect::<Vec<_>>().join(" ");
    let mut s = format!("{} items {}; {}{}", crate::fam::FAM_NAMES[c.fam as usize & 3], crate::item::ITEM_NAMES[c.item as usize % 6],
        if c.ntasks > 1 { format!("{} tasks, {}", c.ntasks, if c.cfg.policy == 1 { format!("PCT with {} change points", c.cfg.pct_points) } else { format!("random walk, preemption every ~{} steps, {}% stalls", c.cfg.switch_den, c.cfg.stall_pct) }) } else { "one task".into() },
        format!("; per mille destructor panics {}, clone panics {}, source panics {}, re-entrant destructors {}", c.cfg.dpanic, c.cfg.cpanic, c.cfg.ipanic, c.cfg.reent));
    for (i, p) in c.progs.iter().enumerate() { if !p.is_empty() { s += &format!(" | {}: {}", if i == 0 { "setup".into() } else if i == c.progs.len() - 1 { "end".into() } else { format!("task {}", i - 1) }, show(p)); } }
    if s.len() > 1500 { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s += " ..."; }
    s
}

pub fn check(prop: &str, tier: &str, secs: u64, jobs: usize, seed: u64) -> i32 {
    let Some(&prop) = PROPS.iter().find(|p| **p == prop) else { eprintln!("unknown property {prop}"); return 2 };
    let _ = std::fs::create_dir_all("out");
    let _ = std::fs::create_dir_all("evidence");
    let t0 = Instant::now();
    let mut regions: Vec<&'static mut [u64]> = (0..jobs).map(|_| sys::shared(O_HASH + HCAP)).collect();
    let mut pids: Vec<Option<i32>> = vec![];
    for (k, sh) in regions.iter_mut().enumerate() {
        let p = sh.as_mut_ptr();
        let len = sh.len();
        pids.push(Some(sys::spawn(|| worker(unsafe { std::slice::from_raw_parts_mut(p, len) }, prop, seed, k as u64, jobs as u64, secs))));
    }
    let mut watch = vec![(0u64, 0u64); jobs];
    let mut found: Option<(u64, Option<&'static str>)> = None;
    let mut err: Option<String> = None;
    let mut tick = 0u64;
    while pids.iter().any(|p| p.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        tick += 1;
        for k in 0..jobs {
            let Some(pid) = pids[k] else { continue };
            let idx = regions[k][H_IDX].wrapping_sub(1);
            if let Some(e) = sys::poll(pid) {
                pids[k] = None;
                match e {
                    End::Exit(0) => {}
                    End::Exit(1) => if found.map_or(true, |f| idx < f.0) { found = Some((idx, None)) },
                    End::Signal(9) => err = Some("a worker was killed (out of memory?)".into()),
                    End::Signal(_) => if found.map_or(true, |f| idx < f.0) { found = Some((idx, Some("crash"))) },
                    End::Exit(c) => err = Some(format!("worker failed with code {c} in run {idx}")),
                }
            } else if tick % 50 == 0 {
                let cpu = sys::cpu_ticks(pid);
                if watch[k].0 != idx { watch[k] = (idx, cpu); }
                else if cpu > watch[k].1 + 1500 {
                    sys::kill9(pid);
                    sys::reap(pid);
                    pids[k] = None;
                    if found.map_or(true, |f| idx < f.0) { found = Some((idx, Some("hang"))) }
                }
            }
        }
        if found.is_some() || err.is_some() {
            // runs that were started earlier may fail earlier: let them end, but not for long
            for sh in regions.iter_mut() { sh[H_STOP] = 1; }
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(1500) && pids.iter().any(|p| p.is_some()) {
                for k in 0..jobs { if let Some(pid) = pids[k] { if let Some(e) = sys::poll(pid) { pids[k] = None; let idx = regions[k][H_IDX].wrapping_sub(1); if e == End::Exit(1) && found.map_or(true, |f| idx < f.0) { found = Some((idx, None)); } } } }
                std::thread::sleep(Duration::from_millis(5));
            }
            for k in 0..jobs { if let Some(pid) = pids[k] { sys::kill9(pid); sys::reap(pid); pids[k] = None; } }
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((idx, how)) = found {
        nviol = 1;
        code = 1;
        let path = report(prop, seed, idx, how);
        match path {
            Ok(p) => println!("VIOLATION property={prop} replay={p}"),
            Err(e) => { eprintln!("rcsim: {e}"); code = 2; }
        }
    } else if let Some(e) = err { eprintln!("rcsim: {e}"); code = 2; }
    evidence(prop, tier, seed, &regions, t0.elapsed().as_secs_f64(), nviol, jobs);
    for l in std::fs::read_to_string("known-findings.txt").unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix(&format!("known: property={prop} ")) { println!("KNOWN-FINDING: property={prop} {x}"); }
    }
    let runs: u64 = regions.iter().map(|s| s[H_RUNS]).sum();
    println!("{prop}: {runs} simulated runs in {:.1} s, {}", t0.elapsed().as_secs_f64(), if code == 0 { "no violation" } else { "VIOLATED" });
    code
}

fn report(prop: &'static str, seed: u64, idx: u64, how: Option<&'static str>) -> Result<String, String> {
    let s = run_seed(seed, prop, idx);
    let case = gen(prop, s);
    let mut ch = Chan::new();
    let (o, log) = in_child(&mut ch, prop, &case, None, None)?;
    if o.kind == "none" && how.is_none() { return Err(format!("run {idx} failed in the search but not when repeated: the simulator is not deterministic here")); }
    let origin = format!("VERIF_SEED={seed} run {idx} (run seed {s:016x})");
    println!("found: {} in {origin}: {}", o.kind, o.msg);
    let (o2, _) = in_child(&mut ch, prop, &case, Some(&log), None)?;
    let path = format!("out/{prop}-{seed}-{idx}.replay");
    let (mut c, mut l) = (case, log);
    if o2.kind == o.kind {
        let mut m = Min { ch: &mut ch, prop, kind: o.kind.clone(), tries: 6000, deadline: Instant::now() + Duration::from_secs(60) };
        let (a, b) = m.run(c, l);
        c = a;
        l = b;
    } else {
        println!("note: replaying the recorded choices gives {} instead", o2.kind);
    }
    let rp = Replay { property: prop.into(), kind: o.kind.clone(), msg: o.msg.clone(), at: String::new(), origin, case: c.clone(), choices: l.clone() };
    let tmp = format!("out/{prop}.trace.tmp");
    let _ = std::fs::remove_file(&tmp);
    let (o3, _) = in_child(&mut ch, prop, &c, Some(&l), Some(&rp))?;
    match std::fs::read_to_string(&tmp) {
        Ok(t) => { let _ = std::fs::remove_file(&tmp); std::fs::write(&path, t).map_err(|e| e.to_string())?; }
        Err(_) => { let mut rp = rp; rp.at = o3.at(); rp.kind = o3.kind.clone(); rp.msg = o3.msg.clone(); std::fs::write(&path, replay::write(&rp, &[])).map_err(|e| e.to_string())?; }
    }
    println!("minimised to {} operations, {} scheduling/fault choices, {} tasks: {}: {}", c.progs.iter().map(|p| p.len()).sum::<usize>(), l.len(), c.ntasks, o3.kind, o3.msg);
    // an independent process must reproduce it exactly
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).arg("replay").arg(&path).output().map_err(|e| e.to_string())?;
    println!("replay in a fresh process: {}", if out.status.code() == Some(1) { "reproduced exactly" } else { "DID NOT REPRODUCE" });
    let dir = std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default();
    Ok(format!("{dir}/{path}"))
}

pub fn replay_file(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) { Ok(s) => s, Err(e) => { eprintln!("rcsim: {path}: {e}"); return 2; } };
    let rp = match replay::parse(&s) { Ok(r) => r, Err(e) => { eprintln!("rcsim: {path}: {e}"); return 2; } };
    let prop = PROPS.iter().find(|p| **p == rp.property).copied().unwrap_or("C01");
    let _ = std::fs::create_dir_all("out");
    let mut ch = Chan::new();
    let mut tr = rp.clone();
    tr.property = format!("{prop}-replay-{}", std::process::id());
    let tmp = format!("out/{}.trace.tmp", tr.property);
    let res = in_child(&mut ch, prop, &rp.case, Some(&rp.choices), Some(&tr));
    let t = std::fs::read_to_string(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    if let Some(i) = t.find("\nend\n") { print!("{}", &t[i + 5..]); }
    match res {
        Err(e) => { eprintln!("rcsim: {e}"); 2 }
        Ok((o, _)) if o.kind == rp.kind && (o.at() == rp.at || o.kind == "crash" || o.kind == "hang") => { println!("{}: {} at {}", o.kind, o.msg, o.at()); println!("VIOLATION property={prop} replay={path}"); 1 }
        Ok((o, _)) => {
            println!("the replay does not reproduce the recorded violation ({} at {}); it gives: {} {} at {}", rp.kind, rp.at, o.kind, o.msg, o.at());
            if o.kind == "none" { 0 } else { 3 }
        }
    }
}

pub fn one(prop: &str, idx: u64, seed: u64, trace: bool) -> i32 {
    let Some(&prop) = PROPS.iter().find(|p| **p == prop) else { return 2 };
    unsafe { PROP = prop; }
    let case = gen(prop, run_seed(seed, prop, idx));
    set_ops(&case);
    println!("{}", describe(&case));
    let r = rt();
    r.ignore = ignore_kind;
    dispatch(&case, Mode::Record, trace);
    if let Some(t) = &r.trace { for l in t { println!("{l}"); } }
    println!("steps {} hash {:016x} hist {:016x} choices {} ignored {} internal {:?}\n{:?}", r.steps, r.hash, w().hist, r.log.len(), r.ignored, r.internal_error, r.violation);
    r.violation.is_some() as i32
}
/// Prints one line per run; identical invocations must print identical lines.
pub fn hashes(n: u64, skip: u64, seed: u64) -> i32 {
    let r = rt();
    r.ignore = ignore_kind;
    for p in PROPS {
        unsafe { PROP = p; }
        for i in skip..skip + n {
            let case = gen(p, run_seed(seed, p, i));
            set_ops(&case);
            dispatch(&case, Mode::Record, false);
            // and once more from its recorded choices
            let (h, hh, st, v) = (r.hash, w().hist, r.steps, r.violation.clone());
            let mut l = r.log.clone();
            l.sort();
            dispatch(&case, Mode::Replay(l), false);
            let same = (h, hh, st) == (r.hash, w().hist, r.steps) && v.as_ref().map(|v| v.kind) == r.violation.as_ref().map(|v| v.kind);
            println!("{p} {i} {h:016x} {hh:016x} {st} {} {}", v.map_or("-", |v| v.kind), if same { "replay-same" } else { "REPLAY-DIFFERS" });
            if r.internal_error.is_some() { println!("INTERNAL {:?}", r.internal_error); return 2; }
        }
    }
    0
}

fn evidence(prop: &str, tier: &str, seed: u64, regions: &[&'static mut [u64]], wall: f64, nviol: u32, jobs: usize) {
    let sum = |i: usize| regions.iter().map(|s| s[i]).sum::<u64>();
    let max = |i: usize| regions.iter().map(|s| s[i]).max().unwrap_or(0);
    let st = |i: usize| sum(O_STAT + i);
    let runs = sum(H_RUNS);
    let mut set = HashSet::new();
    for s in regions { for i in 0..(s[H_NHASH] as usize).min(HCAP) { set.insert(s[O_HASH + i]); } }
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    for (i, n) in KIND_NAMES.iter().enumerate() { if i != K_NEXT { faults.insert(n, st(S_FAULT0 + i)); } }
    faults.insert("stalls", st(S_STALL));
    faults.insert("stalls_cut_short_because_everyone_waited", st(S_UNSTALL));
    faults.insert("task_unwound_mid_life", st(U + Pr::Kills as usize));
    faults.insert("rejected_arguments", st(U + Pr::BadArgs as usize));
    let mut pairs = 0;
    let mut top: Vec<(u64, usize)> = vec![];
    for i in 0..6400 { let v = sum(O_OVER + i); if v > 0 { pairs += 1; top.push((v, i)); } }
    top.sort_by(|a, b| b.cmp(a));
    let obj = |it: Vec<(String, u64)>| format!("{{{}}}", it.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "));
    let mut samples = vec![];
    let mut i = 0;
    while samples.len() < 3 && i < 400 { let c = gen(prop, run_seed(seed, prop, i)); if c.ntasks > 1 || prop == "C14" || i > 40 { samples.push(json_str(&format!("run {i}: {}", describe(&c)))); i += 5; } i += 1; }
    let foreign: Vec<(String, u64)> = KINDS.iter().enumerate().map(|(i, k)| (k.to_string(), sum(O_FOREIGN + i))).filter(|x| x.1 > 0).collect();
    let per_h = |x: u64| (x as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"wall_s\": {wall:.2}, \"violations\": {nviol},\n", json_str(prop), json_str(tier));
    s += " \"coverage\": {\n";
    s += &format!("  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n", set.len());
    s += "  \"rule\": \"One evaluation is one simulated run: a generated program (setup, one program per task, a closing program, then disposal of every handle) executed by the real library under one seed that decides every interleaving, stale atomic read, stall and fault. Non-trivial: with several tasks, at least two operations of different tasks were in flight on the same storage at once; with one task, a fault or rejected argument was injected or at least 8 operations ran. Distinct: different hash over the whole sequence of (task, interleaving point) and of operation results.\",\n";
    s += &format!("  \"samples\": [{}],\n", samples.join(", "));
    s += &format!("  \"runs_per_hour\": {}, \"seeds_per_hour\": {}, \"workers\": {jobs},\n", per_h(runs), per_h(runs));
    s += &format!("  \"multi_task_runs\": {}, \"nontrivial_runs\": {},\n", sum(H_MULTI), sum(H_NONTRIV));
    s += &format!("  \"simulated_time_steps\": {}, \"longest_run_steps\": {}, \"context_switches\": {}, \"switches_forced_by_spinning\": {}, \"runs_past_fairness_point\": {},\n", st(S_STEPS), max(H_MAXSTEPS), st(S_SWITCH), st(S_SPINSWITCH), st(S_FAIR));
    s += &format!("  \"atomic_loads\": {}, \"loads_with_several_permitted_values\": {}, \"atomic_rmw\": {}, \"failed_cas\": {}, \"atomic_stores\": {}, \"library_allocations\": {}, \"blocks_reused\": {},\n", st(S_LOADS), st(S_MULTISTALE), st(S_RMW), st(S_CASFAIL), st(S_STORES), st(S_ALLOC), st(S_REUSED));
    s += &format!("  \"faults_injected\": {},\n", obj(faults.into_iter().map(|(k, v)| (k.to_string(), v)).collect()));
    s += &format!("  \"operations\": {},\n", obj((0..NOPS).map(|i| (OP_NAMES[i].to_string(), st(U + 60 + i))).collect()));
    s += &format!("  \"reached\": {},\n", obj(PROBES.iter().enumerate().map(|(i, p)| (p.to_string(), st(U + i))).collect()));
    s += &format!("  \"distinct_pairs_of_operations_in_flight_together\": {pairs},\n  \"most_frequent_pairs\": {},\n", obj(top.iter().take(12).map(|&(v, i)| (format!("{} || {}", op_name((i / 80) as u8), op_name((i % 80) as u8)), v)).collect()));
    s += &format!("  \"runs_by_component\": {},\n", obj(crate::fam::FAM_NAMES.iter().enumerate().map(|(i, n)| (n.to_string(), sum(O_FAM + i))).collect()));
    s += &format!("  \"violations_of_other_properties_ignored\": {},\n  \"ignored_soft_findings\": {},\n", obj(foreign), sum(H_IGN));
    s += "  \"components\": {\"real\": [\"every line of /repo/src (arc, rc, internal) compiled unmodified; SimArc/SimRc runs take core::sync::atomic, core::hint::spin_loop, alloc::sync and alloc::rc from the simulator, RealArc/RealRc runs use the shipped crate with std's own types (one task only)\"], \"stub\": [\"atomics: operational weak memory model with vector clocks\", \"Arc/Weak, Rc/Weak: port of std's algorithms with liveness and ordering checks\", \"threads: coroutines under the seeded scheduler\", \"global allocator: checking arena with redzones, poisoning and optional immediate reuse\", \"element types: instrumented items whose drop/clone may panic, stall or re-enter\"]}\n";
    s += " },\n";
    s += " \"assumptions\": [\"weak memory is explored with the last 8 stores per atomic location; plain (non-atomic) memory is sequentially consistent and races on it are reported through vector clocks on items and reference counted objects\", \"x86_64, 64 bit; allocation failure aborts the process and is not simulated\", \"element types are 0, 1, 12, 16, 32 (zero sized) and 64 bytes\"]\n}\n";
    if let Err(e) = std::fs::write(format!("evidence/{prop}.json"), s) { eprintln!("rcsim: cannot write evidence: {e}"); }
}
