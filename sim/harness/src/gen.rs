//! Seeded generation of cases: programs, sizes, scheduler policy and fault mix, per property.
use crate::ops::*;
use simrt::rng::{mix, Rng};
use simrt::rt::Cfg;

pub const PROPS: [&str; 18] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19"];

/// Base weight of every operation (in tenths).
fn base() -> [u32; NOPS] {
    let mut w = [0u32; NOPS];
    let t: &[(u8, u32)] = &[
        (NEW_S, 20), (NEW_M, 15), (COLLECT, 15), (CLONE, 90), (LEFT, 100), (RIGHT, 100), (SPLIT_L, 60), (SPLIT_R, 60), (READ, 60), (DROP_S, 150), (DROP_W, 40), (DROP_M, 60),
        (DROP_X, 50), (INTO_MUT, 120), (GET_MUT, 70), (DOWNGRADE, 80), (UPGRADE, 120), (WCLONE, 20), (M_SPLIT_L, 40), (M_SPLIT_R, 40), (INTO_IMMUT, 70), (M_WRITE, 40), (M_CLONE, 25),
        (INTO_ITER, 35), (I_NEXT, 30), (I_BACK, 30), (I_FROM, 15), (I_TO, 15), (I_COUNT, 6), (I_WRITE, 8), (I_NTH, 12), (S_PARTS, 40), (P_NEXT, 60), (P_BACK, 50), (P_CLONE, 20), (P_COUNT, 8),
        (M_PARTS, 30), (Q_NEXT, 30), (Q_BACK, 30), (Q_WRITE, 8), (Q_COUNT, 5), (SEND, 25), (RECV, 40), (PUBLISH, 12), (TAKE, 12), (REND, 12), (KILL, 6), (FORGET, 0), (BADARG, 12),
        (FRESHW, 3), (DROPALL, 12), (PAUSE, 15), (DROPVAL, 15), (CONV_CYCLE, 50),
        (P_WALK, 25), (Q_WALK, 15), (I_WALK, 12), (COMPARE, 12), (PLAIN, 1), (P_NTH, 8), (Q_NTH, 6), (P_ALL, 8), (Q_ALL, 6), (I_ALL, 6), (CLONE_FROM, 10), (WCLONE_FROM, 5), (M_CLONE_FROM, 8),
    ];
    for &(c, x) in t { w[c as usize] = x; }
    w
}
struct Profile { w: [u32; NOPS], solo: u32, faults: u32, dp: u32, panics: u32 }
fn profile(p: &str) -> Profile {
    let mut w = base();
    let (mut solo, mut faults, mut dp, mut panics) = (25, 40, 30, 40);
    let mut up = |l: &[u8], f: u32| for &c in l { w[c as usize] *= f };
    let iters = [INTO_ITER, I_NEXT, I_BACK, I_FROM, I_TO, I_COUNT, I_WRITE, I_NTH, I_WALK, I_ALL, PLAIN, DROP_X];
    let parts = [S_PARTS, P_NEXT, P_BACK, P_CLONE, P_COUNT, P_WALK, P_NTH, P_ALL, PLAIN, DROP_X];
    let mparts = [M_PARTS, Q_NEXT, Q_BACK, Q_WRITE, Q_COUNT, Q_WALK, Q_NTH, Q_ALL, PLAIN, DROP_X];
    match p {
        "C01" => up(&[DROP_S, SPLIT_L, SPLIT_R, UPGRADE, INTO_MUT], 2),
        "C02" => up(&[DROP_S, INTO_MUT, CONV_CYCLE, KILL, BADARG, DROP_X], 2),
        "C03" => up(&[DOWNGRADE, DROP_W, DROP_S, UPGRADE, NEW_S, COLLECT], 2),
        "C04" => { up(&[LEFT, RIGHT, SPLIT_L, SPLIT_R, READ], 3); up(&[M_SPLIT_L, M_SPLIT_R], 2); up(&[PLAIN], 4); }
        "C05" => { up(&[INTO_MUT, UPGRADE, DOWNGRADE, INTO_IMMUT], 2); up(&[LEFT, RIGHT], 2); solo = 25; }
        "C06" => { up(&[GET_MUT, CONV_CYCLE], 4); up(&[DOWNGRADE, UPGRADE, WCLONE, DROP_W], 2); solo = 25; }
        "C07" => { up(&[INTO_MUT, GET_MUT, CONV_CYCLE], 3); up(&[DROP_S, DROP_W], 2); solo = 35; }
        "C08" => { up(&[UPGRADE, DOWNGRADE], 3); up(&[WCLONE, DROP_S, INTO_MUT, INTO_IMMUT], 2); solo = 25; }
        "C09" => { up(&[M_WRITE, GET_MUT, UPGRADE, DROP_S], 2); solo = 0; faults = 25; panics = 20; }
        "C10" => { up(&parts, 5); solo = 45; }
        "C11" => { up(&mparts, 6); up(&[NEW_M, INTO_IMMUT], 2); solo = 50; }
        "C12" => { up(&iters, 6); up(&[NEW_M], 3); solo = 50; }
        "C13" => { up(&[UPGRADE, INTO_MUT, LEFT, RIGHT, GET_MUT], 2); solo = 15; faults = 70; panics = 25; }
        "C14" => { up(&[COLLECT, M_CLONE, M_CLONE_FROM, KILL, BADARG, INTO_ITER, I_NTH, DROP_X], 3); solo = 45; faults = 98; dp = 60; panics = 85; }
        "C15" => { up(&[M_CLONE, M_CLONE_FROM, COLLECT], 8); up(&[PLAIN], 5); up(&[M_WRITE, NEW_M, M_SPLIT_L, M_SPLIT_R], 4); solo = 45; }
        "C16" => { up(&[COMPARE], 40); up(&[PLAIN], 8); up(&[M_CLONE, M_WRITE, S_PARTS, M_PARTS, INTO_ITER], 2); solo = 45; }
        "C17" => {
            w = [0; NOPS];
            for (c, x) in [(X_NEW, 20), (X_STEP, 60), (X_DROP, 15), (X_CROSS, 40), (X_RECV, 40), (X_SHARED, 25), (PAUSE, 5), (REND, 5)] { w[c as usize] = x; }
            solo = 0;
            faults = 0;
        }
        "C19" => {
            up(&[LEFT, RIGHT, DOWNGRADE, UPGRADE, CONV_CYCLE, INTO_IMMUT], 2);
            up(&[DROP_S, DROP_W, DROP_M], 3);
            for c in [DROPALL, KILL, PLAIN, BADARG] { w[c as usize] /= 3; }
            w[TAKE as usize] = 0;
            solo = 55;
            faults = 30;
        }
        _ => {}
    }
    Profile { w, solo, faults, dp, panics }
}

fn pick(r: &mut Rng, w: &[u32; NOPS]) -> u8 {
    let tot: u32 = w.iter().sum();
    let mut x = r.below(tot.max(1));
    for (i, &v) in w.iter().enumerate() { if x < v { return i as u8; } x -= v; }
    READ
}
fn length(r: &mut Rng) -> u16 {
    (match r.below(20) { 0..=1 => r.below(3), 2..=11 => 1 + r.below(8), 12..=16 => 2 + r.below(23), 17..=18 => 8 + r.below(60), _ => 40 + r.below(260) }) as u16
}
fn op(r: &mut Rng, code: u8, uid: &mut u32, shared: bool) -> Op {
    *uid += 1;
    let mut a = r.below(8) as u16;
    let mut b = r.next() as u16 & 0x7fff;
    let c = r.next() as u16 & 0x7fff;
    match code {
        NEW_S | NEW_M | COLLECT => a = length(r),
        S_PARTS | M_PARTS => b = match r.below(12) { 0 => r.below(11), 1..=3 => 4 + r.below(4), _ => 1 + r.below(4) } as u16,
        SEND => b = r.below(4) as u16,
        CLONE | LEFT | RIGHT | DOWNGRADE | UPGRADE | WCLONE | READ | P_CLONE | M_CLONE | COMPARE | CLONE_FROM | WCLONE_FROM | M_CLONE_FROM => if shared && r.chance(2, 5) { a |= 0x4000; },
        _ => {}
    }
    Op { code, a, b, c, uid: *uid }
}

pub fn gen(prop: &str, seed: u64) -> Case {
    let mut rng = Rng::new(seed ^ 0x67e5_5044_10b1_426f);
    let r = &mut rng;
    let pf = profile(prop);
    let solo = r.chance(pf.solo, 100);
    let fam = if solo { match r.below(20) { 0..=8 => 1, 9..=13 => 0, 14..=16 => 2, _ => 3 } } else { 0 };
    let item = match r.below(20) { 0..=8 => 0, 9..=10 => 1, 11..=12 => 2, 13..=15 => 3, 16 => 4, _ => 5 } as u8;
    // swarm: some operations are left out, some are stressed
    let mut w = pf.w;
    let crossing = prop == "C17";
    for x in w.iter_mut() { if crossing { *x = *x / 2 + r.below(*x + 1); continue; } match r.below(10) { 0..=2 => *x = 0, 3..=4 => *x *= 4, 5 => *x /= 3, _ => {} } }
    if r.chance(1, 40) { w[FORGET as usize] = 20; }
    if solo { for c in [SEND, RECV, PUBLISH, TAKE, REND, PAUSE] { w[c as usize] /= 8; } }
    if w.iter().all(|&x| x == 0) { w[READ as usize] = 1; }
    let ntasks = if solo { 1 } else { match r.below(20) { 0..=10 => 2, 11..=16 => 3, 17..=18 => 4, _ => 5 } };
    let mut cfg = Cfg { policy: 0, switch_den: 1, fair_after: 60_000, max_steps: 300_000, reuse: r.chance(1, 3), ..Cfg::default() };
    if !solo {
        if r.chance(3, 10) {
            cfg.policy = 1;
            cfg.pct_points = 1 + r.below(5);
            cfg.pct_len = [60, 150, 400, 1200][r.below(4) as usize];
        } else {
            cfg.switch_den = [1, 2, 3, 5, 9, 20, 60][r.below(7) as usize];
            cfg.stall_pct = [0, 5, 15, 40, 70][r.below(5) as usize];
        }
        cfg.stale_pct = [0, 0, 10, 30, 60][r.below(5) as usize];
        cfg.spur_pct = [0, 0, 5, 25][r.below(4) as usize];
        cfg.cstall = [0, 0, 0, 30, 200, 600][r.below(6) as usize];
    }
    if r.chance(pf.faults, 100) {
        let lv = |r: &mut Rng| [5u32, 20, 60, 150, 350][r.below(5) as usize];
        if r.chance(pf.panics, 100) {
            if r.chance(pf.dp, 100) { cfg.dpanic = lv(r); }
            if r.chance(40, 100) { cfg.cpanic = lv(r); }
            if r.chance(30, 100) { cfg.ipanic = lv(r) / 2; }
        }
        if r.chance(60, 100) { cfg.reent = lv(r); }
    }
    let mut uid = 0u32;
    let u = &mut uid;
    let mut setup = vec![];
    let mut kinds: Vec<u8> = vec![];
    // how the first slices are made
    if crossing { for _ in 0..1 + r.below(3) { setup.push(op(r, X_NEW, u, false)); } }
    for k in 0..if crossing { 0 } else { 1 + (r.below(4) == 0) as u32 } {
        let c = match r.below(10) { 0..=6 => NEW_S, 7..=8 => NEW_M, _ => COLLECT };
        let mut o = op(r, c, u, false);
        if c == NEW_S || c == NEW_M { if !solo && k == 0 && r.chance(3, 4) { o.a = 1 + r.below(9) as u16; } }
        setup.push(o);
        kinds.push(c);
    }
    let mut ws = w;
    for c in [DROP_S, DROP_M, DROP_X, DROPALL, SEND, RECV, REND, PAUSE, KILL, TAKE, READ] { ws[c as usize] /= 6; }
    if !crossing { for c in [CLONE, LEFT, RIGHT] { ws[c as usize] = ws[c as usize].max(60); } }
    if !solo { for c in [INTO_MUT, CONV_CYCLE] { ws[c as usize] /= 4; } }
    let ns = if solo { r.below(6) } else { 1 + r.below(2 * ntasks as u32 + 4) };
    let mut shared = false;
    for _ in 0..ns {
        let c = pick(r, &ws);
        if c == PUBLISH { shared = true; }
        setup.push(op(r, c, u, shared));
    }
    if !solo && !crossing && r.chance(1, 4) { shared = true; setup.push(op(r, PUBLISH, u, false)); }
    let long = prop == "C19";
    // now and then far more items than usual, or the same few operations very often
    let (large, often) = (solo && !crossing && !long && r.chance(1, 120), !crossing && !long && r.chance(1, 100));
    if long && r.chance(3, 4) {
        // something small that stays while everything else comes and goes
        shared = true;
        for k in 0..1 + r.below(2) as usize { let mut o = op(r, PUBLISH, u, false); o.b = if r.chance(2, 3) { 0 } else { 3 }; setup.insert((1 + k).min(setup.len()), o); if k == 0 { let mut o = op(r, CLONE, u, false); o.a = 0; setup.insert(1, o); } }
    }
    if long || large || often { cfg.max_steps = 8_000_000; }
    let mut progs = vec![setup];
    // the concurrent part: either anything, or a few operations hammered by everybody
    let mut wc = w;
    if !solo && !crossing && r.chance(2, 5) {
        let mut keep = [0u32; NOPS];
        for _ in 0..2 + r.below(4) { let c = pick(r, &w) as usize; keep[c] = 10 + r.below(30); }
        wc = keep;
    }
    let len = if solo { 4 + r.below(50) } else { match r.below(10) { 0..=3 => 1 + r.below(3), 4..=7 => 2 + r.below(6), 8 => 6 + r.below(12), _ => 20 + r.below(30) } };
    let len = if long { if solo { if r.chance(1, 12) { 2000 + r.below(2000) } else { 100 + r.below(400) } } else { 20 + r.below(150) } } else { len };
    let len = if crossing { 5 + r.below(30) } else if often { if solo { 200 + r.below(400) } else { 60 + r.below(100) } } else { len };
    for t in 0..ntasks {
        let mut p = vec![];
        let n = if solo || long { len } else { 1 + r.below(len.max(1) + 1) };
        let mut wt = wc;
        // sometimes every task has its own speciality
        if !solo && !crossing && r.chance(1, 4) { let mut k = [0u32; NOPS]; for _ in 0..1 + r.below(3) { k[pick(r, &w) as usize] = 10; } wt = k; }
        if often || long && r.chance(3, 5) {
            // the same few operations over and over
            let motif: Vec<Op> = (0..1 + r.below(6)).map(|_| { let c = pick(r, &wt); op(r, c, u, shared) }).collect();
            while p.len() < n as usize { for m in &motif { *u += 1; p.push(Op { uid: *u, ..*m }); } }
        }
        for _ in p.len()..n as usize { let c = pick(r, &wt); p.push(op(r, c, u, shared)); }
        if !solo && t > 0 && r.chance(1, 6) { p.push(op(r, REND, u, shared)); for _ in 0..1 + r.below(3) { let c = pick(r, &w); p.push(op(r, c, u, shared)); } }
        progs.push(p);
    }
    // a family in which little keeps the older generations alive: looked up by some tasks while others let go
    if !solo && !crossing && !long && r.chance(match prop { "C13" | "C06" => 35, "C05" | "C07" | "C08" => 20, _ => 12 }, 100) {
        let mut st = vec![op(r, NEW_S, u, false)];
        st[0].a = 1 + r.below(7) as u16;
        let mut n = 1u16;
        for _ in 0..1 + r.below(3) {
            let c = if r.chance(1, 2) { LEFT } else { RIGHT };
            let mut o = op(r, c, u, false);
            o.a = n - 1;
            st.push(o);
            for _ in 0..1 + r.below(2) { let mut o = op(r, DOWNGRADE, u, false); o.a = n; st.push(o); }
            if r.chance(3, 4) { let mut o = op(r, DROP_S, u, false); o.a = if r.chance(4, 5) { n } else { n - 1 }; st.push(o); if n > 1 { n -= 1; } } else { n += 1; }
        }
        let mut few = [0u32; NOPS];
        for (c, x) in [(UPGRADE, 12), (DROP_S, 12), (LEFT, 3), (RIGHT, 3), (INTO_MUT, 3), (GET_MUT, 2), (DROP_W, 1), (SPLIT_L, 2), (DOWNGRADE, 1), (DROPALL, 2)] { few[c as usize] = x; }
        if prop == "C06" || r.chance(1, 6) {
            // who borrows mutably against who gets at the rest by weak slices alone
            few = [0; NOPS];
            for (c, x) in [(UPGRADE, 12), (GET_MUT, 14), (DROP_W, 6), (DROP_S, 5), (WCLONE, 2), (LEFT, 1), (RIGHT, 1), (DOWNGRADE, 2), (INTO_MUT, 1), (READ, 3), (PAUSE, 2)] { few[c as usize] = x; }
        }
        for p in progs.iter_mut().skip(1) { *p = (0..1 + r.below(4)).map(|_| { let c = pick(r, &few); op(r, c, u, false) }).collect(); }
        progs[0] = st;
        if cfg.reent > 0 || prop == "C13" && r.chance(1, 2) { cfg.reent = [150, 350, 600][r.below(3) as usize]; }
    }
    // a line of descent: handles at some generations, weak slices at some, then a few operations on what is left
    if !crossing && !long && r.chance(match prop { "C05" | "C06" | "C07" | "C08" => if solo { 35 } else { 12 }, _ => if solo { 10 } else { 5 } }, 100) {
        let mut st = vec![op(r, NEW_S, u, false)];
        st[0].a = if r.chance(1, 4) { 1 + r.below(40) } else { 1 + r.below(9) } as u16;
        let depth = 1 + r.below(4) as u16;
        for d in 0..depth { let c = if r.chance(1, 2) { LEFT } else { RIGHT }; let mut o = op(r, c, u, false); o.a = d; st.push(o); }
        let weaks = 1 + r.below(4);
        for _ in 0..weaks { let mut o = op(r, DOWNGRADE, u, false); o.a = if r.chance(1, 2) { depth } else { r.below(depth as u32 + 1) as u16 }; st.push(o); }
        let keep = if r.chance(2, 3) { 0 } else { r.below(depth as u32 + 1) as u16 };
        for d in (0..=depth).rev() { if d != keep && r.chance(4, 5) { let mut o = op(r, DROP_S, u, false); o.a = d; st.push(o); } }
        let mut few = [0u32; NOPS];
        for (c, x) in [(UPGRADE, 12), (INTO_MUT, 6), (GET_MUT, 6), (DROP_S, 8), (DROP_W, 4), (LEFT, 3), (RIGHT, 3), (DOWNGRADE, 2), (WCLONE, 1), (CLONE, 1), (READ, 2), (INTO_IMMUT, 2), (SPLIT_L, 1), (SPLIT_R, 1)] { few[c as usize] = if r.chance(1, 5) { 0 } else { x }; }
        if solo { few[READ as usize] += 1; }
        for p in progs.iter_mut().skip(1) { *p = (0..1 + r.below(if solo { 12 } else { 5 })).map(|_| { let c = pick(r, &few); op(r, c, u, false) }).collect(); }
        progs[0] = st;
    }
    let mut fin = vec![];
    if r.chance(2, 3) { for _ in 0..r.below(10) { let c = pick(r, &w); fin.push(op(r, c, u, shared)); } }
    progs.push(fin);
    if large { for o in progs.iter_mut().flatten() { if matches!(o.code, NEW_S | NEW_M | COLLECT) && r.chance(1, 2) { let up = [300, 800, 4000][r.below(3) as usize]; o.a = (300 + r.below(up)) as u16; } } }
    if often { for o in progs.iter_mut().flatten() { if matches!(o.code, NEW_S | NEW_M | COLLECT) { o.a %= 33; } } }
    if long && r.chance(4, 5) { for o in progs.iter_mut().flatten() { if matches!(o.code, NEW_S | NEW_M | COLLECT) { o.a %= 7; } } }
    Case { fam, item, cfg, ntasks, progs, fin_mode: r.below(64), seed: mix(seed) }
}
pub fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(base ^ 0x9e37_79b9);
    for b in prop.bytes() { h = mix(h ^ b as u64); }
    mix(h ^ idx.wrapping_mul(0xd1342543de82ef95))
}
