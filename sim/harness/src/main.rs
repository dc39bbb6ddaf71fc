//! rcsim: deterministic simulation of rc_slice under a seeded scheduler with fault injection.
#![allow(static_mut_refs, dead_code)]
mod cross;
mod fam;
mod gen;
mod item;
mod ops;
mod plain;
mod replay;
mod search;
mod sys;
mod world;

#[global_allocator]
static ALLOC: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

pub fn init() {
    simrt::rt();
    simrt::arena::init(world::on_free);
    std::panic::set_hook(Box::new(|info| {
        let old = simrt::arena::lib_off();
        let r = simrt::rt();
        let p = info.payload();
        let m = if p.is::<world::Injected>() { "injected".to_string() }
            else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".to_string() };
        let loc = info.location().map(|l| { let f = l.file(); format!("{}:{}", f.rsplit("/repo/").next().unwrap_or(f), l.line()) }).unwrap_or_default();
        if r.active {
            let c = r.cur;
            r.tasks[c].unwinding += 1;
            r.panic_msg = format!("{m} ({loc})");
        } else {
            eprintln!("rcsim: panic outside a run: {m} at {loc}");
        }
        simrt::arena::lib_restore(old);
    }));
    // warm up the unwinder and everything it allocates lazily
    let _ = std::panic::catch_unwind(|| { simrt::rt().active = true; std::panic::panic_any(world::Injected) });
    let r = simrt::rt();
    r.active = false;
    r.tasks[0].unwinding = 0;
    let _ = world::w();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d);
    let seed = env("VERIF_SEED", 1);
    init();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match g(1) {
        "check" => {
            let tier = if g(3) == "thorough" { "thorough" } else { "quick" };
            let secs = env("VERIF_SECS", if tier == "thorough" { 600 } else { 20 });
            let jobs = env("VERIF_JOBS", std::thread::available_parallelism().map_or(8, |n| n.get()) as u64).clamp(1, 16) as usize;
            search::check(g(2), tier, secs, jobs, seed)
        }
        "replay" => search::replay_file(g(2)),
        "one" => search::one(g(2), g(3).parse().unwrap_or(0), seed, g(4) == "trace"),
        "hashes" => search::hashes(g(2).parse().unwrap_or(100), g(3).parse().unwrap_or(0), seed),
        _ => { eprintln!("usage: rcsim check <property> <quick|thorough> | replay <file> | one <property> <index> [trace] | hashes <n> <skip>"); 2 }
    };
    std::process::exit(code);
}
