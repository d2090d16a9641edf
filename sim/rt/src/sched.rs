use crate::{arena, rng::{mix, Rng}, shm};
use core::sync::atomic::{AtomicU32, Ordering::*};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MAXT: usize = 12;
pub const EDGE: u32 = 1;
pub const ALLOC: u32 = 2;
pub const LOCK: u32 = 4;
pub const OPB: u32 = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Unborn, Runnable, Blocked(usize), Joining, Done }

pub static mut IN_LIB: bool = false;
pub static mut ACTIVE: bool = false;
pub static mut EDGES: u64 = 0;
static mut POINTS: u64 = 0;
static mut COUNTDOWN: u64 = u64::MAX;
static mut MASK: u32 = 0;
static mut CUR: usize = 0;
static mut NT: usize = 1;
static mut ST: [St; MAXT] = [St::Unborn; MAXT];
static mut SAVED: [bool; MAXT] = [false; MAXT];
static mut PAUSED: u32 = 0;
static GATE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static mut SWITCHES: u64 = 0;
/// Edges after which a run ends early, between two calls: it says nothing more, and is no failure.
pub static mut RUN_BUDGET: u64 = u64::MAX;
/// Edges one library call may take before it counts as hanging.
pub static mut CALL_BUDGET: u64 = 400_000_000;
/// Edges of the current library call of each thread.
static mut SPENT: [u64; MAXT] = [0; MAXT];

/// `site`: preempt at the edges whose hash is in one bucket of `1 << bits`, each time with a chance of 1 in `1 << rare`.
#[derive(Clone, Copy)]
pub struct Site { pub bits: u32, pub bucket: u64, pub rare: u32 }
pub struct SchedCfg { pub mask: u32, pub kmax: u64, pub max_preempt: u64, pub spurious: bool, pub site: Option<Site>, pub site_only: bool }
static mut CFG: SchedCfg = SchedCfg { mask: 0, kmax: 0, max_preempt: 0, spurious: false, site: None, site_only: false };
static mut SITE_MASK: u64 = 0;
static mut SITE_BUCKET: u64 = u64::MAX;
static mut SRNG: Rng = Rng::raw(0);
static mut GEN: bool = true;
static mut PRE: Vec<(u32, u32)> = Vec::new();
static mut FOR: Vec<u32> = Vec::new();
static mut NPRE: usize = 0;
static mut NFOR: usize = 0;
static mut NEXT_PICK: u32 = 0;
static mut CONCURRENT: bool = false;

pub fn now() -> u64 { unsafe { EDGES } }
pub fn points() -> u64 { unsafe { POINTS } }
pub fn tid() -> usize { unsafe { CUR } }
pub fn in_lib() -> bool { unsafe { IN_LIB } }

unsafe fn raw_futex(addr: *const AtomicU32, op: i64, val: u32) {
    raw_syscall(libc::SYS_futex, addr as i64, op | 128, i64::from(val), 0, 0, 0);
}
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    r
}

pub unsafe fn init(cfg: SchedCfg, seed: u64, replay: Option<(Vec<(u32, u32)>, Vec<u32>)>) {
    MASK = cfg.mask; CFG = cfg;
    if let Some(s) = CFG.site { SITE_MASK = (1 << s.bits) - 1; SITE_BUCKET = s.bucket & SITE_MASK; MASK |= EDGE; }
    SRNG = Rng::new(mix(seed, 0x5c4ed));
    GEN = replay.is_none();
    if let Some((p, f)) = replay { PRE = p; FOR = f; }
    ST[0] = St::Runnable;
}
unsafe fn next_gap() {
    if !CONCURRENT { COUNTDOWN = u64::MAX; return; }
    let (gap, pick) = if GEN {
        if NPRE as u64 >= CFG.max_preempt || CFG.mask == 0 { (u32::MAX, 0) } else {
            let k = SRNG.below(CFG.kmax + 1);
            let g = if CFG.site_only { 1 << 31 } else { (1u64 << k) + SRNG.below(1 << k) };
            (g as u32, SRNG.below(64) as u32)
        }
    } else { PRE.get(NPRE).copied().unwrap_or((u32::MAX, 0)) };
    if gap == u32::MAX { COUNTDOWN = u64::MAX; return; }
    let s = &mut *shm::SHM;
    if NPRE < shm::MAX_SCHED { s.sched[NPRE] = (gap, pick); s.nsched = NPRE as u32 + 1; }
    NPRE += 1;
    COUNTDOWN = u64::from(gap.max(1));
    NEXT_PICK = pick;
}
unsafe fn forced_pick() -> u32 {
    let v = if GEN { let p = SRNG.below(64) as u32; p | if CFG.spurious && SRNG.below(8) == 0 { 256 } else { 0 } }
        else { FOR.get(NFOR).copied().unwrap_or(0) };
    let s = &mut *shm::SHM;
    if NFOR < shm::MAX_SCHED { s.forced[NFOR] = v; s.nforced = NFOR as u32 + 1; }
    NFOR += 1;
    v
}
unsafe fn runnable(except: usize) -> ([usize; MAXT], usize) {
    let mut o = [0; MAXT];
    let mut n = 0;
    for t in 0..NT { if t != except && ST[t] == St::Runnable { o[n] = t; n += 1; } }
    (o, n)
}
unsafe fn switch_to(t: usize, site: u64) {
    let me = CUR;
    if t == me { return; }
    SWITCHES += 1;
    let s = &mut *shm::SHM;
    s.schedhash = mix(s.schedhash, site ^ ((me as u64) << 56) ^ ((t as u64) << 48));
    SAVED[me] = IN_LIB;
    CUR = t;
    IN_LIB = SAVED[t];
    GATE[t].store(1, Release);
    raw_futex(&GATE[t], 1, 1);
    park(me);
}
unsafe fn park(me: usize) {
    while GATE[me].load(Acquire) == 0 { raw_futex(&GATE[me], 0, 0); }
    GATE[me].store(0, Relaxed);
}
#[cold]
#[inline(never)]
unsafe fn preempt(site: u64) {
    let lib = IN_LIB;
    IN_LIB = false;
    let pick = NEXT_PICK;
    next_gap();
    let (r, n) = runnable(CUR);
    IN_LIB = lib;
    if n > 0 { switch_to(r[pick as usize % n], site); }
}
#[inline]
pub unsafe fn point(kind: u32, site: u64) {
    if PAUSED != 0 { return; }
    if MASK & kind != 0 {
        POINTS += 1;
        COUNTDOWN = COUNTDOWN.wrapping_sub(1);
        if COUNTDOWN == 0 { preempt(site); }
    }
}

/// Called by the instrumented code at each control-flow edge (through the naked stub below).
#[no_mangle]
unsafe extern "C" fn simrt_edge(pc: u64) {
    if !IN_LIB { return; }
    EDGES += 1;
    let pc = pc.wrapping_sub(base());
    let h = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 47) as usize;
    (*shm::SHM).cov[h >> 6] |= 1 << (h & 63);
    SPENT[CUR] += 1;
    if SPENT[CUR] > CALL_BUDGET { over_budget(); }
    if (h as u64) & SITE_MASK == SITE_BUCKET { site_hit(); }
    point(EDGE, pc);
}
/// The preemption that was planned for later happens here; the recorded plan says so.
#[cold]
unsafe fn site_hit() {
    let Some(site) = CFG.site else { return };
    if !GEN || !CONCURRENT || PAUSED != 0 || COUNTDOWN < 2 || COUNTDOWN > 1 << 40 || NPRE == 0 || NPRE > shm::MAX_SCHED || SRNG.below(1 << site.rare) != 0 { return; }
    let s = &mut *shm::SHM;
    s.sched[NPRE - 1].0 -= (COUNTDOWN - 1) as u32;
    COUNTDOWN = 1;
    shm::count("preemptions at a chosen place in the code");
}
static mut BASE: u64 = 0;
#[inline]
unsafe fn base() -> u64 { BASE }
pub unsafe fn set_base() { BASE = (simrt_edge as *const () as usize as u64) & !0xfff; }
#[cold]
fn over_budget() -> ! {
    unsafe { IN_LIB = false; }
    let op = shm::cur_op(tid());
    shm::fail(2, &format!("hang/{op}"), &format!("the call did not finish within {} control-flow edges; in operation {op}", unsafe { CALL_BUDGET }))
}
#[unsafe(naked)]
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc() {
    core::arch::naked_asm!(
        "cmp byte ptr [rip + {f}], 0", "jne 2f", "ret", "2:",
        "mov rdi, [rsp]", "jmp simrt_edge", f = sym IN_LIB)
}

// ---- futex seam: std's locks, Once and crossbeam's sharded lock all end here -------------------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if ACTIVE && n == libc::SYS_futex {
        let op = b & 0x7f;
        match op {
            0 | 9 => return sim_wait(a as usize, c as u32),
            1 | 10 => return sim_wake(a as usize, c as u64),
            _ => {}
        }
    }
    if ACTIVE && n == libc::SYS_getrandom { fill(a as *mut u8, b as usize); return b; }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { *libc::__errno_location() = -r as i32; -1 } else { r }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if ACTIVE { fill(p, n); return n as isize; }
    raw_syscall(libc::SYS_getrandom, p as i64, n as i64, i64::from(flags), 0, 0, 0) as isize
}
unsafe fn fill(p: *mut u8, n: usize) {
    shm::count("seam: randomness requests answered");
    for i in 0..n { *p.add(i) = (i as u8).wrapping_mul(37) ^ 0x5c; }
}
unsafe fn sim_wait(addr: usize, val: u32) -> i64 {
    let lib = IN_LIB;
    IN_LIB = false;
    if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        IN_LIB = lib;
        *libc::__errno_location() = libc::EAGAIN;
        return -1;
    }
    shm::count("lock contention (thread blocked on a futex)");
    ST[CUR] = St::Blocked(addr);
    block_here(lib, 0xb10c);
    0
}
unsafe fn block_here(lib: bool, site: u64) {
    let v = forced_pick();
    let me = CUR;
    let (r, n) = runnable(usize::MAX);
    if v & 256 != 0 {
        // spurious wake-up of some waiter (futexes are allowed to)
        for t in 0..NT {
            if matches!(ST[t], St::Blocked(_)) && n > 0 { ST[t] = St::Runnable; shm::count("fault: spurious futex wake-up"); break; }
        }
        if ST[me] == St::Runnable { IN_LIB = lib; return; }
    }
    if n == 0 {
        let mut s = String::new();
        for t in 0..NT { s.push_str(&format!(" t{t}:{:?} in {};", ST[t], shm::cur_op(t))); }
        shm::fail(2, "deadlock", &format!("no thread can run:{s}"));
    }
    IN_LIB = lib;
    switch_to(r[(v & 255) as usize % n], site);
}
unsafe fn sim_wake(addr: usize, n: u64) -> i64 {
    let mut w = 0;
    for t in 0..NT {
        if w == n { break; }
        if ST[t] == St::Blocked(addr) { ST[t] = St::Runnable; w += 1; }
    }
    if IN_LIB { point(LOCK, 0x3a4e); }
    w as i64
}

// ---- library sections ---------------------------------------------------------------------------
/// Run `f` as library code: edges may preempt, allocations come from the simulated heap.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let o = IN_LIB;
        if !o { SPENT[CUR] = 0; }
        IN_LIB = true;
        let r = f();
        IN_LIB = o;
        r
    }
}
/// Run `f` as harness code from inside a library section.
pub fn pause_lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let o = IN_LIB;
        IN_LIB = false;
        let r = f();
        IN_LIB = o;
        r
    }
}
#[derive(Debug, Clone)]
pub struct Panicked(pub String);
static mut LAST_PANIC: [Option<String>; MAXT] = [const { None }; MAXT];
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| unsafe {
        let o = IN_LIB;
        IN_LIB = false;
        let m = i.payload().downcast_ref::<&str>().map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(l.file()), l.line())).unwrap_or_default();
        if !o && MAIN_DEPTH == 0 {
            // A panic outside any protected library call: the oracle tripped over what the library returned.
            let op = shm::cur_op(CUR);
            shm::fail(2, &format!("oracle-panic/{op}"), &format!("{m} at {l} in {op}"));
        }
        if MAIN_DEPTH != 0 { eprintln!("harness panic: {m} at {l}"); }
        LAST_PANIC[CUR] = Some(format!("{m} at {l}"));
        IN_LIB = o;
    }));
}
pub static mut MAIN_DEPTH: u32 = 1;
/// A library call that is allowed to unwind; the panic is returned.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    unsafe {
        let o = IN_LIB;
        if !o { if EDGES > RUN_BUDGET { shm::cut_short(); } SPENT[CUR] = 0; }
        IN_LIB = true;
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_LIB = false;
        let r = r.map_err(|p| { drop(p); Panicked(LAST_PANIC[CUR].take().unwrap_or_default()) });
        IN_LIB = o;
        r
    }
}
/// An operation boundary: a place where another thread may be chosen.
pub fn boundary() {
    unsafe {
        let o = IN_LIB;
        IN_LIB = false;
        point(OPB, 0x0bd);
        IN_LIB = o;
    }
}
pub fn no_preempt<R>(f: impl FnOnce() -> R) -> R {
    unsafe { PAUSED += 1; let r = f(); PAUSED -= 1; r }
}

// ---- threads ------------------------------------------------------------------------------------
type Body = Box<dyn FnOnce()>;
static mut BODY: [Option<Body>; MAXT] = [const { None }; MAXT];
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let me = p as usize;
    unsafe {
        park(me);
        arena::altstack();
        let b = BODY[me].take().unwrap();
        b();
        finish_thread(me);
    }
    loop { unsafe { raw_syscall(libc::SYS_pause, 0, 0, 0, 0, 0, 0); } }
}
unsafe fn finish_thread(me: usize) {
    IN_LIB = false;
    ST[me] = St::Done;
    let all = (1..NT).all(|t| ST[t] == St::Done);
    if all { ST[0] = St::Runnable; }
    let v = forced_pick();
    let (r, n) = runnable(usize::MAX);
    if n == 0 { block_here(false, 0xdead); }
    let t = r[(v & 255) as usize % n];
    // hand over without waiting
    SWITCHES += 1;
    CUR = t;
    IN_LIB = SAVED[t];
    GATE[t].store(1, Release);
    raw_futex(&GATE[t], 1, 1);
    loop { raw_syscall(libc::SYS_pause, 0, 0, 0, 0, 0, 0); }
}
/// Run the bodies as simulated threads 1..=n; returns when all are done.
pub fn run_threads(bodies: Vec<Body>) {
    unsafe {
        NT = bodies.len() + 1;
        assert!(NT <= MAXT);
        for (i, b) in bodies.into_iter().enumerate() {
            let t = i + 1;
            BODY[t] = Some(b);
            ST[t] = St::Runnable;
            let mut attr: libc::pthread_attr_t = core::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 4 << 20);
            let mut h: libc::pthread_t = 0;
            let rc = libc::pthread_create(&mut h, &attr, trampoline, t as *mut libc::c_void);
            if rc != 0 { shm::fail(3, "harness", "pthread_create failed"); }
        }
        if NT == 1 { return; }
        CONCURRENT = NT > 2;
        next_gap();
        ST[0] = St::Joining;
        let v = forced_pick();
        let (r, n) = runnable(0);
        switch_to(r[(v & 255) as usize % n], 0x57a7);
        CONCURRENT = false;
        COUNTDOWN = u64::MAX;
    }
}
pub unsafe fn store_stats() {
    let s = &mut *shm::SHM;
    s.edges = EDGES;
    s.points = POINTS;
    s.switches = SWITCHES;
}
