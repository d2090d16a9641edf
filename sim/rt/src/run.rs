use crate::{arena::{self, Policy}, rng::mix, sched, shm, tape::Tape};
#[derive(Clone, Debug)]
pub enum Src { Seed(u64), Fixed(Vec<u64>) }
#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub cfg: Src,
    /// None: as many operations per thread as the set-up asks for, all drawn from the seed.
    pub threads: Option<Vec<Vec<Src>>>,
    /// None: drawn from the seed. Some: preemptions (gap, pick) and picks at forced switches.
    pub sched: Option<(Vec<(u32, u32)>, Vec<u32>)>,
}
impl Plan {
    pub fn from_seed(seed: u64) -> Self { Plan { seed, cfg: Src::Seed(mix(seed, 1)), threads: None, sched: None } }
    pub fn size(&self) -> (usize, u64, usize) {
        let mut ops = 0;
        let mut w = 0;
        let mut add = |s: &Src| if let Src::Fixed(v) = s { w += v.iter().map(|x| 1 + u64::from(64 - x.leading_zeros())).sum::<u64>() };
        add(&self.cfg);
        for t in self.threads.iter().flatten() { ops += t.len(); for s in t { add(s) } }
        (ops, w, self.sched.as_ref().map_or(0, |s| s.0.len() + s.1.iter().filter(|x| **x != 0).count()))
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status { Ok, Violation, Harness }
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub class: String,
    pub msg: String,
    pub edges: u64,
    pub points: u64,
    pub switches: u64,
    pub evhash: u64,
    pub schedhash: u64,
    pub nevents: u64,
    pub trace: String,
    pub nops: usize,
}
/// `edge_budget`: edges after which a run ends early; `call_budget`: edges after which one call counts as hanging.
pub struct Knobs { pub policies: &'static [Policy], pub edge_budget: u64, pub call_budget: u64, pub max_preempt: u64 }
impl Default for Knobs {
    fn default() -> Self {
        Knobs { policies: &[Policy::Never, Policy::Lifo, Policy::FirstFit, Policy::Random, Policy::Fence], edge_budget: 80_000_000, call_budget: 400_000_000, max_preempt: 1500 }
    }
}
pub trait Workload: Sized + 'static {
    const NAME: &'static str;
    fn knobs() -> Knobs { Knobs::default() }
    /// Build the world (single-threaded); returns how many operations each thread performs.
    fn setup(cfg: &mut Tape) -> (Self, Vec<usize>);
    fn op(&self, t: usize, tape: &mut Tape);
    /// A thread has performed all its operations.
    fn thread_end(&self, _t: usize) {}
    /// All threads are done.
    fn finish(&self);
}
fn tape_of(s: &Src, thread: u32, op: u32) -> Tape {
    match s { Src::Seed(x) => Tape::seeded(*x, thread, op), Src::Fixed(v) => Tape::fixed(v.clone(), thread, op) }
}
unsafe fn child<W: Workload>(plan: &Plan) -> ! {
    sched::MAIN_DEPTH = 0;
    let mut cfg = tape_of(&plan.cfg, 255, 0);
    let k = W::knobs();
    sched::RUN_BUDGET = k.edge_budget;
    sched::CALL_BUDGET = k.call_budget;
    // Swarm: which places may preempt, how often, where memory comes from, what it contains.
    let mask = [sched::OPB, sched::OPB | sched::LOCK, sched::OPB | sched::LOCK | sched::ALLOC, 15, 15][cfg.weighted(&[1, 1, 2, 3, 3])];
    let kmax = [0, 3, 6, 9, 12, 15][cfg.usize(6)];
    let max_preempt = [2, 10, 100, k.max_preempt][cfg.weighted(&[1, 1, 2, 3])].min(k.max_preempt);
    let policy = k.policies[cfg.usize(k.policies.len())];
    let red = [16, 0, 48][cfg.usize(3)];
    let poison = [0xA5, 0x00, 0xFF, 0x41, 0x70, 0x10, 0x80][cfg.usize(7)];
    let fence_start = cfg.chance(1, 3);
    let spurious = cfg.chance(1, 3);
    let site = if cfg.chance(1, 3) { Some(sched::Site { bits: [5, 7, 9][cfg.usize(3)], bucket: cfg.word(), rare: [0, 2, 4, 6][cfg.usize(4)] }) } else { None };
    let site_only = site.is_some() && cfg.chance(1, 2);
    sched::init(sched::SchedCfg { mask, kmax, max_preempt, spurious, site, site_only }, plan.seed, plan.sched.clone());
    arena::init(arena::ArenaCfg { policy, red, poison, fence_start }, plan.seed);
    shm::count(match policy { Policy::Never => "heap: addresses never reused", Policy::Lifo => "heap: freed block reused at once", Policy::FirstFit => "heap: first fit, split and merge",
        Policy::Random => "heap: random placement", Policy::Fence => "heap: page per block, freed pages trap" });
    crate::trace!("schedule: mask={mask:#x} kmax={kmax} max={max_preempt} spurious={spurious} site={}; heap: {policy:?} red={red} poison={poison:#x}", site.map_or("none".to_string(), |s| format!("{:#x}/{} 1:{}{}", s.bucket & ((1 << s.bits) - 1), 1 << s.bits, 1 << s.rare, if site_only { " only" } else { "" })));
    sched::ACTIVE = true;
    shm::set_op("setup");
    let (w, mut nops) = W::setup(&mut cfg);
    let w: *mut W = Box::into_raw(Box::new(w));
    let srcs: Vec<Vec<Src>> = match &plan.threads {
        Some(t) => { let mut t = t.clone(); t.resize(nops.len(), vec![]); t.truncate(nops.len()); t }
        None => nops.iter().enumerate().map(|(t, n)| (0..*n).map(|i| Src::Seed(mix(mix(plan.seed, 100 + t as u64), i as u64))).collect()).collect(),
    };
    for (t, s) in srcs.iter().enumerate() { nops[t] = s.len(); }
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for (t, ops) in srcs.into_iter().enumerate() {
        let wp = w as usize;
        bodies.push(Box::new(move || {
            for (i, s) in ops.into_iter().enumerate() {
                let mut tape = tape_of(&s, t as u32, i as u32);
                shm::set_op("op");
                unsafe { (*(wp as *const W)).op(t, &mut tape); }
                shm::count("operations performed");
                sched::boundary();
            }
            shm::set_op("thread-end");
            unsafe { (*(wp as *const W)).thread_end(t); }
        }));
    }
    sched::run_threads(bodies);
    shm::set_op("finish");
    (*w).finish();
    arena::check_all();
    shm::ev(sched::now());
    sched::store_stats();
    if arena::REUSED > 0 { shm::count_n("fault: freed memory reused by a later allocation", arena::REUSED); }
    (*shm::SHM).status = 1;
    libc::_exit(0);
}
/// Run one plan in a forked process.
pub fn run_forked<W: Workload>(plan: &Plan, trace: bool) -> Outcome {
    unsafe {
        shm::reset();
        shm::TRACE = trace;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 100, rlim_max: 110 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            child::<W>(plan);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        let s = &*shm::SHM;
        let mut o = Outcome {
            status: match s.status { 1 => Status::Ok, 2 => Status::Violation, 3 => Status::Harness, _ => Status::Violation },
            class: String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned(),
            msg: String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
            edges: s.edges, points: s.points, switches: s.switches, evhash: s.evhash, schedhash: s.schedhash, nevents: s.nevents,
            trace: String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned(),
            nops: 0,
        };
        if s.status == 0 {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGKILL { o.status = Status::Harness; }
                o.class = format!("killed/signal{sig}");
                o.msg = format!("the process was ended by signal {sig}; operations in progress: {:?}", (0..4).map(shm::cur_op).collect::<Vec<_>>());
            } else {
                o.status = Status::Harness;
                o.class = "harness".into();
                o.msg = format!("run ended without a status ({st:#x})");
            }
        }
        o
    }
}
/// The plan the last run actually followed, every draw made explicit.
pub fn recorded(plan: &Plan) -> Option<Plan> {
    unsafe {
        let s = &*shm::SHM;
        if s.rec_overflow != 0 { return None; }
        let mut cfg = vec![];
        let mut th: Vec<Vec<Vec<u64>>> = vec![];
        for (t, o, v) in &s.rec[..s.nrec as usize] {
            if *t == 255 { cfg.push(*v); continue; }
            let (t, o) = (*t as usize, *o as usize);
            while th.len() <= t { th.push(vec![]); }
            while th[t].len() <= o { th[t].push(vec![]); }
            th[t][o].push(*v);
        }
        Some(Plan {
            seed: plan.seed, cfg: Src::Fixed(cfg),
            threads: Some(th.into_iter().map(|t| t.into_iter().map(Src::Fixed).collect()).collect()),
            sched: Some((s.sched[..s.nsched as usize].to_vec(), s.forced[..s.nforced as usize].to_vec())),
        })
    }
}
/// Shrink a failing plan while the same class of violation persists.
pub fn minimise<W: Workload>(plan: &Plan, class: &str, deadline: std::time::Instant, tried: &mut u64) -> Plan {
    let mut best = plan.clone();
    let ok = |p: &Plan, tried: &mut u64| -> bool {
        if std::time::Instant::now() > deadline { return false; }
        *tried += 1;
        let o = run_forked::<W>(p, false);
        o.status == Status::Violation && o.class == class
    };
    loop {
        let before = best.size();
        // 1. drop the schedule altogether, then halves of it
        if let Some((p, f)) = best.sched.clone() {
            let mut c = best.clone();
            c.sched = Some((vec![], vec![]));
            if !p.is_empty() && ok(&c, tried) { best = c; } else {
                let mut n = p.len();
                while n > 0 {
                    n /= 2;
                    let mut c = best.clone();
                    c.sched.as_mut().unwrap().0.truncate(n);
                    if ok(&c, tried) { best = c; } else { break; }
                }
                let mut c = best.clone();
                c.sched.as_mut().unwrap().1.clear();
                if !f.is_empty() && ok(&c, tried) { best = c; }
            }
        }
        // 2. drop chunks of operations
        let nt = best.threads.as_ref().map_or(0, Vec::len);
        for t in 0..nt {
            let mut chunk = best.threads.as_ref().unwrap()[t].len();
            while chunk >= 1 {
                let mut at = 0;
                while at < best.threads.as_ref().unwrap()[t].len() {
                    let mut c = best.clone();
                    let v = &mut c.threads.as_mut().unwrap()[t];
                    let e = (at + chunk).min(v.len());
                    v.drain(at..e);
                    if ok(&c, tried) { best = c; } else { at += chunk; }
                }
                if chunk == 1 { break; }
                chunk /= 2;
            }
        }
        // 3. merge preemptions: remove each one (its gap added to the next)
        let mut i = 0;
        while best.sched.as_ref().is_some_and(|s| i < s.0.len() && s.0.len() <= 400) {
            let mut c = best.clone();
            let v = &mut c.sched.as_mut().unwrap().0;
            let g = v.remove(i).0;
            if i < v.len() { v[i].0 = v[i].0.saturating_add(g); }
            if ok(&c, tried) { best = c; } else { i += 1; }
        }
        let mut i = 0;
        while best.sched.as_ref().is_some_and(|s| i < s.1.len() && s.1.len() <= 400) {
            let mut c = best.clone();
            let v = &mut c.sched.as_mut().unwrap().1;
            if v[i] == 0 { i += 1; continue; }
            v[i] = 0;
            if ok(&c, tried) { best = c; }
            i += 1;
        }
        // 4. simplify draws: truncate the tail to zeros, zero, halve, decrement
        let get = |p: &Plan, k: usize| -> Option<Vec<u64>> {
            let mut all: Vec<&Src> = vec![&p.cfg];
            for t in p.threads.iter().flatten() { all.extend(t.iter()); }
            match all.get(k)? { Src::Fixed(v) => Some(v.clone()), Src::Seed(_) => Some(vec![]) }
        };
        let put = |p: &mut Plan, k: usize, v: Vec<u64>| {
            let mut all: Vec<&mut Src> = vec![&mut p.cfg];
            for t in p.threads.iter_mut().flatten() { all.extend(t.iter_mut()); }
            *all[k] = Src::Fixed(v);
        };
        let mut k = 0;
        while let Some(v) = get(&best, k) {
            let mut n = v.len();
            while n > 0 {
                n /= 2;
                let mut c = best.clone();
                put(&mut c, k, v[..n].to_vec());
                if ok(&c, tried) { best = c; } else { break; }
            }
            let len = get(&best, k).unwrap().len();
            if len <= 300 {
                for i in 0..len {
                    let cur = get(&best, k).unwrap();
                    if i >= cur.len() || cur[i] == 0 { continue; }
                    let mut cand = vec![0, cur[i] / 2, cur[i] - 1];
                    cand.dedup();
                    for x in cand {
                        if x >= cur[i] { continue; }
                        let mut v = cur.clone();
                        v[i] = x;
                        let mut c = best.clone();
                        put(&mut c, k, v);
                        if ok(&c, tried) { best = c; break; }
                    }
                }
            }
            k += 1;
        }
        if best.size() >= before || std::time::Instant::now() > deadline { break; }
    }
    best
}
