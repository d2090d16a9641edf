//! Deterministic simulation of fleece-rs: one process, one seed, one execution.
#![allow(clippy::all)]
mod damage;
mod gen;
mod kit;
mod model;
mod props;
mod refdec;
mod refenc;
mod serdem;
mod zoo;

use simrt::run::{minimise, recorded};
use simrt::{run_forked, Outcome, Plan, Src, Status};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

macro_rules! dispatch {
    ($name:expr, $f:ident $args:tt) => {
        match $name {
            "C01" => $f::<props::c01::W> $args,
            "C02" => $f::<props::c02::W> $args,
            "C02K" => $f::<props::c02k::W> $args,
            "C03" => $f::<props::c03::W> $args,
            "C04" => $f::<props::c04::W> $args,
            "C04K" => $f::<props::c04k::W> $args,
            "C05" => $f::<props::c05::W> $args,
            "C06" => $f::<props::c06::W> $args,
            "C07" => $f::<props::c07::W> $args,
            "C08" => $f::<props::c08::W> $args,
            "C09" => $f::<props::c09::W> $args,
            "C10" => $f::<props::c10::W> $args,
            "C11" => $f::<props::c11::W> $args,
            "C12" => $f::<props::c12::W> $args,
            _ => { eprintln!("unknown workload {}", $name); std::process::exit(2) }
        }
    };
}
fn jsrc(s: &Src) -> serde_json::Value { match s { Src::Seed(x) => serde_json::json!({ "seed": x }), Src::Fixed(v) => serde_json::json!(v) } }
fn usrc(v: &serde_json::Value) -> Src {
    match v { serde_json::Value::Array(a) => Src::Fixed(a.iter().map(|x| x.as_u64().unwrap()).collect()), o => Src::Seed(o["seed"].as_u64().unwrap()) }
}
fn plan_json(p: &Plan) -> serde_json::Value {
    serde_json::json!({
        "seed": p.seed, "cfg": jsrc(&p.cfg),
        "threads": p.threads.as_ref().map(|t| t.iter().map(|o| o.iter().map(jsrc).collect::<Vec<_>>()).collect::<Vec<_>>()),
        "sched": p.sched.as_ref().map(|(a, b)| serde_json::json!({ "preempt": a, "forced": b })),
    })
}
fn plan_from(v: &serde_json::Value) -> Plan {
    Plan {
        seed: v["seed"].as_u64().unwrap(), cfg: usrc(&v["cfg"]),
        threads: v["threads"].as_array().map(|t| t.iter().map(|o| o.as_array().unwrap().iter().map(usrc).collect()).collect()),
        sched: v["sched"].as_object().map(|s| {
            (s["preempt"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap() as u32)).collect(),
                s["forced"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect())
        }),
    }
}
struct Args(BTreeMap<String, String>);
impl Args {
    fn u(&self, k: &str, d: u64) -> u64 { self.0.get(k).map_or(d, |v| v.parse().unwrap()) }
    fn s(&self, k: &str) -> &str { self.0.get(k).map_or("", |v| v) }
}
fn same(a: &Outcome, b: &Outcome) -> bool {
    a.status == b.status && a.class == b.class && (a.status != Status::Ok || (a.edges == b.edges && a.switches == b.switches && a.evhash == b.evhash && a.schedhash == b.schedhash && a.points == b.points))
}
fn batch<W: simrt::run::Workload>(a: &Args) -> i32 {
    let t0 = Instant::now();
    let end = t0 + Duration::from_millis(a.u("ms", 60_000));
    let (seed, start, stride, count) = (a.u("seed", 1), a.u("start", 0), a.u("stride", 1), a.u("count", 100));
    let every = a.u("recheck", 97);
    let stop_after = a.u("stop-after", 6);
    let mut scheds = HashSet::new();
    let mut evs = HashSet::new();
    let (mut runs, mut edges, mut points, mut switches, mut events, mut rechecks) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut viol: Vec<serde_json::Value> = vec![];
    let mut harness: Vec<serde_json::Value> = vec![];
    let mut i = start;
    let mut n = 0;
    let mut complete = true;
    let mut samples = vec![];
    while n < count {
        if Instant::now() > end { complete = false; break; }
        let rs = simrt::rng::mix(seed, i);
        let plan = Plan::from_seed(rs);
        let o = run_forked::<W>(&plan, false);
        runs += 1;
        edges += o.edges; points += o.points; switches += o.switches; events += o.nevents;
        scheds.insert(o.schedhash);
        evs.insert(o.evhash);
        match o.status {
            Status::Ok => {}
            Status::Violation => {
                viol.push(serde_json::json!({ "index": i, "seed": rs, "class": o.class, "msg": o.msg }));
            }
            Status::Harness => harness.push(serde_json::json!({ "index": i, "seed": rs, "class": o.class, "msg": o.msg })),
        }
        if n < 2 { samples.push(serde_json::json!({ "seed": rs, "steps": o.edges, "switches": o.switches, "events": o.nevents })); }
        if every > 0 && n % every == 3 {
            // one seed is one execution
            let p = if n % 2 == 0 { plan.clone() } else { recorded(&plan).unwrap_or(plan.clone()) };
            let o2 = run_forked::<W>(&p, false);
            rechecks += 1;
            if !same(&o, &o2) {
                harness.push(serde_json::json!({ "index": i, "seed": rs, "class": "nondeterminism", "msg": format!("the same plan gave another execution: {:?} {} {} {} {} / {:?} {} {} {} {}", o.status, o.class, o.edges, o.switches, o.evhash, o2.status, o2.class, o2.edges, o2.switches, o2.evhash) }));
            }
        }
        n += 1;
        i += stride;
        if viol.len() as u64 >= stop_after || harness.len() > 2 { complete = false; break; }
    }
    let s = unsafe { &*simrt::shm::SHM };
    let counters: BTreeMap<String, u64> = s.counters[..s.ncounters as usize].iter().map(|c| {
        let l = c.name.iter().position(|b| *b == 0).unwrap_or(c.name.len());
        (String::from_utf8_lossy(&c.name[..l]).into_owned(), c.n)
    }).collect();
    let cov: Vec<String> = s.cov.iter().enumerate().filter(|(_, w)| **w != 0).map(|(i, w)| format!("{i:x}:{w:x}")).collect();
    let out = serde_json::json!({
        "workload": W::NAME, "runs": runs, "edges": edges, "points": points, "switches": switches, "events": events, "rechecks": rechecks,
        "seconds": t0.elapsed().as_secs_f64(), "complete": complete, "counters": counters, "cov": cov, "samples": samples,
        "scheds": scheds.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(), "evs": evs.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(),
        "violations": viol, "harness": harness,
    });
    let t = serde_json::to_string(&out).unwrap();
    if a.s("out").is_empty() {
        let mut o = out;
        for k in ["cov", "scheds", "evs"] { let n = o[k].as_array().unwrap().len(); o[k] = n.into(); }
        println!("{}", serde_json::to_string_pretty(&o).unwrap());
    } else { std::fs::write(a.s("out"), t).unwrap(); }
    0
}
fn shrink<W: simrt::run::Workload>(a: &Args) -> i32 {
    let seed = a.u("seed", 0);
    let plan = Plan::from_seed(seed);
    let o = run_forked::<W>(&plan, false);
    if o.status != Status::Violation { println!("seed {seed} does not violate: {:?} {}", o.status, o.msg); return 2; }
    let rec = recorded(&plan);
    let mut best = plan.clone();
    let mut tried = 0;
    let mut note = "minimised";
    match rec {
        Some(r) => {
            let o2 = run_forked::<W>(&r, false);
            if o2.status == Status::Violation && o2.class == o.class {
                best = minimise::<W>(&r, &o.class, Instant::now() + Duration::from_millis(a.u("ms", 30_000)), &mut tried);
            } else { note = "not minimised: the recorded plan behaved differently"; }
        }
        None => note = "not minimised: the run drew too much to record",
    }
    let o = run_forked::<W>(&best, true);
    let n = |p: &Plan| serde_json::json!({ "operations": p.threads.as_ref().map(|t| t.iter().map(Vec::len).collect::<Vec<_>>()), "preemptions": p.sched.as_ref().map(|s| s.0.len()), "size": p.size().1 });
    let out = serde_json::json!({
        "property": a.s("prop"), "workload": W::NAME, "variant": a.s("variant"), "found_with_seed": seed, "class": o.class, "message": o.msg,
        "note": note, "runs_spent_minimising": tried, "minimised_to": n(&best), "plan": plan_json(&best), "steps": o.edges,
        "trace": o.trace.lines().collect::<Vec<_>>(),
    });
    std::fs::write(a.s("out"), serde_json::to_string_pretty(&out).unwrap()).unwrap();
    println!("{}", o.class);
    0
}
fn replay<W: simrt::run::Workload>(v: &serde_json::Value) -> i32 {
    let plan = plan_from(&v["plan"]);
    let o = run_forked::<W>(&plan, true);
    for l in o.trace.lines() { println!("{l}"); }
    let want = v["class"].as_str().unwrap_or("");
    match o.status {
        Status::Violation => {
            println!("REPRODUCED class={} steps={} {}", o.class, o.edges, if o.class == want && Some(o.edges) == v["steps"].as_u64() { "exactly" } else { "DIFFERENTLY" });
            println!("{}", o.msg);
            if o.class == want { 1 } else { 3 }
        }
        Status::Ok => { println!("NOT-REPRODUCED: the run ended without a violation"); 0 }
        Status::Harness => { println!("HARNESS: {} {}", o.class, o.msg); 2 }
    }
}
fn one<W: simrt::run::Workload>(a: &Args) -> i32 {
    let seed = if a.0.contains_key("index") { simrt::rng::mix(a.u("base", 1), a.u("index", 0)) } else { a.u("seed", 1) };
    let o = run_forked::<W>(&Plan::from_seed(seed), true);
    print!("{}", o.trace);
    println!("{:?} class={} edges={} points={} switches={} events={} evhash={:x}\n{}", o.status, o.class, o.edges, o.points, o.switches, o.nevents, o.evhash, o.msg);
    i32::from(o.status != Status::Ok)
}
fn main() {
    unsafe {
        // Fixed addresses: no address-space randomisation.
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("FLEECESIM_NOASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("FLEECESIM_NOASLR", "1").exec();
                eprintln!("exec: {e}");
            }
        }
        let args: Vec<String> = std::env::args().skip(1).collect();
        let cmd = args.first().cloned().unwrap_or_default();
        let what = args.get(1).cloned().unwrap_or_default();
        let mut m = BTreeMap::new();
        for a in args.iter().skip(2) { if let Some((k, v)) = a.trim_start_matches("--").split_once('=') { m.insert(k.to_string(), v.to_string()); } }
        let a = Args(m);
        if let Some(c) = a.0.get("cpu").and_then(|c| c.parse::<usize>().ok()) {
            let mut set: libc::cpu_set_t = core::mem::zeroed();
            libc::CPU_SET(c, &mut set);
            libc::sched_setaffinity(0, core::mem::size_of_val(&set), &set);
        }
        simrt::shm::map();
        simrt::arena::init_maps();
        simrt::sched::set_base();
        simrt::sched::install_panic_hook();
        simrt::arena::install_fault_handlers();
        let rc = match cmd.as_str() {
            "batch" => dispatch!(what.as_str(), batch(&a)),
            "shrink" => dispatch!(what.as_str(), shrink(&a)),
            "one" => dispatch!(what.as_str(), one(&a)),
            "replay" => {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&what).unwrap()).unwrap();
                let w = v["workload"].as_str().unwrap().to_string();
                dispatch!(w.as_str(), replay(&v))
            }
            _ => { eprintln!("usage: fleecesim batch|shrink|one WORKLOAD --k=v… | replay FILE"); 2 }
        };
        std::process::exit(rc);
    }
}
