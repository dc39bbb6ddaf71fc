//! Replay files: a complete, human readable description of one run.
use crate::ops::*;
use simrt::rt::{Cfg, KIND_NAMES};

#[derive(Clone)]
pub struct Replay { pub property: String, pub kind: String, pub msg: String, pub at: String, pub origin: String, pub case: Case, pub choices: Vec<(u64, u32)> }

fn cfg_list(c: &Cfg) -> Vec<(&'static str, u64)> {
    vec![("policy", c.policy as u64), ("switch_den", c.switch_den as u64), ("pct_points", c.pct_points as u64), ("pct_len", c.pct_len as u64), ("stall_pct", c.stall_pct as u64),
        ("stale_pct", c.stale_pct as u64), ("spur_pct", c.spur_pct as u64), ("dpanic", c.dpanic as u64), ("cpanic", c.cpanic as u64), ("ipanic", c.ipanic as u64), ("reent", c.reent as u64),
        ("cstall", c.cstall as u64), ("reuse", c.reuse as u64), ("fair_after", c.fair_after), ("max_steps", c.max_steps)]
}
fn cfg_set(c: &mut Cfg, k: &str, v: u64) {
    match k {
        "policy" => c.policy = v as u8, "switch_den" => c.switch_den = v as u32, "pct_points" => c.pct_points = v as u32, "pct_len" => c.pct_len = v as u32, "stall_pct" => c.stall_pct = v as u32,
        "stale_pct" => c.stale_pct = v as u32, "spur_pct" => c.spur_pct = v as u32, "dpanic" => c.dpanic = v as u32, "cpanic" => c.cpanic = v as u32, "ipanic" => c.ipanic = v as u32,
        "reent" => c.reent = v as u32, "cstall" => c.cstall = v as u32, "reuse" => c.reuse = v != 0, "fair_after" => c.fair_after = v, "max_steps" => c.max_steps = v, _ => {}
    }
}
pub fn write(r: &Replay, trace: &[String]) -> String {
    let mut s = String::new();
    let c = &r.case;
    s += "rcsim-replay 1\n";
    s += &format!("property {}\nkind {}\nmessage {}\nat {}\norigin {}\n", r.property, r.kind, r.msg.replace('\n', " "), r.at, r.origin);
    s += &format!("family {} # {}\nitem {} # {}\ntasks {}\nfin_mode {}\nseed {}\n", c.fam, crate::fam::FAM_NAMES[c.fam as usize & 3], c.item, crate::item::ITEM_NAMES[c.item as usize % 6], c.ntasks, c.fin_mode, c.seed);
    for (k, v) in cfg_list(&c.cfg) { s += &format!("cfg {k} {v}\n"); }
    for (i, p) in c.progs.iter().enumerate() {
        let who = if i == 0 { "setup (task 0, alone)".to_string() } else if i == c.progs.len() - 1 { "after the join (task 0, alone)".to_string() } else { format!("task {}", i - 1) };
        s += &format!("prog {i} # {who}\n");
        for o in p { s += &format!("op {} {} {} {} {}\n", op_name(o.code), o.a, o.b, o.c, o.uid); }
    }
    for &(k, v) in &r.choices {
        s += &format!("choice {:016x} {} # {} task {} op {} no {}\n", k, v, KIND_NAMES[(k >> 60) as usize], k >> 56 & 15, k >> 32 & 0xff_ffff, k & 0xffff_ffff);
    }
    s += "end\n";
    for t in trace { s += &format!("# {t}\n"); }
    s
}
pub fn parse(s: &str) -> Result<Replay, String> {
    let mut r = Replay { property: String::new(), kind: String::new(), msg: String::new(), at: String::new(), origin: String::new(),
        case: Case { fam: 0, item: 0, cfg: Cfg::default(), ntasks: 1, progs: vec![], fin_mode: 0, seed: 0 }, choices: vec![] };
    let mut it = s.lines();
    if it.next() != Some("rcsim-replay 1") { return Err("not a replay file".into()); }
    for l in it {
        if l == "end" { break; }
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let v: Vec<&str> = rest.split(" #").next().unwrap_or("").split_whitespace().collect();
        let n = |i: usize| -> Result<u64, String> { v.get(i).and_then(|x| x.parse().ok()).ok_or_else(|| format!("bad line: {l}")) };
        match k {
            "property" => r.property = rest.into(),
            "kind" => r.kind = rest.into(),
            "message" => r.msg = rest.into(),
            "at" => r.at = rest.into(),
            "origin" => r.origin = rest.into(),
            "family" => r.case.fam = n(0)? as u8,
            "item" => r.case.item = n(0)? as u8,
            "tasks" => r.case.ntasks = n(0)? as usize,
            "fin_mode" => r.case.fin_mode = n(0)? as u32,
            "seed" => r.case.seed = n(0)?,
            "cfg" => { let x = n(1)?; cfg_set(&mut r.case.cfg, v[0], x) }
            "prog" => r.case.progs.push(vec![]),
            "op" => {
                let code = OP_NAMES.iter().position(|x| Some(x) == v.first()).ok_or_else(|| format!("bad line: {l}"))? as u8;
                let o = Op { code, a: n(1)? as u16, b: n(2)? as u16, c: n(3)? as u16, uid: n(4)? as u32 };
                r.case.progs.last_mut().ok_or("op before prog")?.push(o);
            }
            "choice" => { let k = u64::from_str_radix(v[0], 16).map_err(|e| e.to_string())?; let x = n(1)? as u32; r.choices.push((k, x)); }
            _ => return Err(format!("bad line: {l}")),
        }
    }
    if r.case.progs.len() != r.case.ntasks + 2 { return Err("wrong number of programs".into()); }
    Ok(r)
}
