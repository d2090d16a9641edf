use crate::sched;
pub const MAX_REC: usize = 1 << 18;
pub const MAX_SCHED: usize = 1 << 14;
pub const TRACE_CAP: usize = 1 << 21;
pub const COV_WORDS: usize = 1 << 11; // 131072 bits
#[repr(C)]
pub struct Counter { pub name: [u8; 56], pub n: u64 }
#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub class: [u8; 256],
    pub msg: [u8; 4096],
    pub cur_op: [[u8; 64]; 16],
    pub edges: u64,
    pub points: u64,
    pub switches: u64,
    pub evhash: u64,
    pub schedhash: u64,
    pub nevents: u64,
    pub nsched: u32,
    pub nforced: u32,
    pub nrec: u32,
    pub rec_overflow: u32,
    pub crash_addr: u64,
    pub trace_len: u32,
    pub ncounters: u32,
    pub sched: [(u32, u32); MAX_SCHED],
    pub forced: [u32; MAX_SCHED],
    pub rec: [(u32, u32, u64); MAX_REC],
    pub counters: [Counter; 384],
    pub cov: [u64; COV_WORDS],
    pub trace: [u8; TRACE_CAP],
}
pub static mut SHM: *mut Shm = core::ptr::null_mut();
pub static mut TRACE: bool = false;

pub fn map() -> *mut Shm {
    unsafe {
        let p = libc::mmap(core::ptr::null_mut(), core::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        SHM = p.cast();
        SHM
    }
}
pub unsafe fn reset() {
    let s = &mut *SHM;
    s.status = 0; s.class_len = 0; s.msg_len = 0; s.edges = 0; s.points = 0; s.switches = 0;
    s.evhash = 0xcbf2_9ce4_8422_2325; s.schedhash = 0xcbf2_9ce4_8422_2325; s.nevents = 0;
    s.nsched = 0; s.nforced = 0; s.nrec = 0; s.rec_overflow = 0; s.trace_len = 0; s.crash_addr = 0;
    for o in &mut s.cur_op { o[0] = 0; }
}
#[inline]
pub fn tracing() -> bool { unsafe { TRACE } }
pub fn trace_text(t: &str) {
    unsafe {
        let s = &mut *SHM;
        let line = format!("{:>8} t{} {}\n", sched::now(), sched::tid(), t);
        let b = line.as_bytes();
        let at = s.trace_len as usize;
        if at + b.len() < TRACE_CAP {
            s.trace[at..at + b.len()].copy_from_slice(b);
            s.trace_len += b.len() as u32;
        }
    }
}
/// Feed the event log (hash).
pub fn ev(a: u64) {
    unsafe {
        let s = &mut *SHM;
        s.nevents += 1;
        s.evhash = crate::rng::mix(s.evhash, a);
    }
}
/// Name the operation the current thread is in (shown when a run crashes).
pub fn set_op(name: &str) {
    unsafe {
        let s = &mut *SHM;
        let o = &mut s.cur_op[sched::tid().min(15)];
        let n = name.len().min(63);
        o[..n].copy_from_slice(&name.as_bytes()[..n]);
        o[n] = 0;
    }
}
pub fn cur_op(t: usize) -> String {
    unsafe {
        let o = &(*SHM).cur_op[t.min(15)];
        let n = o.iter().position(|c| *c == 0).unwrap_or(0);
        String::from_utf8_lossy(&o[..n]).into_owned()
    }
}
/// End the run: 2 = violation, 3 = harness error.
pub fn fail(status: u32, class: &str, msg: &str) -> ! {
    unsafe {
        sched::IN_LIB = false;
        let s = &mut *SHM;
        if s.status == 0 {
            let n = class.len().min(255);
            s.class[..n].copy_from_slice(&class.as_bytes()[..n]);
            s.class_len = n as u32;
            let n = msg.len().min(4095);
            s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
            s.msg_len = n as u32;
            s.status = status;
        }
        if TRACE { trace_text(&format!("VIOLATION {class}: {msg}")); }
        sched::store_stats();
        libc::_exit(0);
    }
}
/// The run took long enough; what it has shown stands.
pub fn cut_short() -> ! {
    unsafe {
        sched::IN_LIB = false;
        count("runs ended early by their budget");
        ev(sched::now());
        sched::store_stats();
        (*SHM).status = 1;
        libc::_exit(0);
    }
}
pub fn count(name: &str) { count_n(name, 1) }
pub fn count_n(name: &str, n: u64) {
    unsafe {
        let s = &mut *SHM;
        let b = name.as_bytes();
        let l = b.len().min(55);
        for c in &mut s.counters[..s.ncounters as usize] {
            if c.name[l] == 0 && c.name[..l] == b[..l] { c.n += n; return; }
        }
        if (s.ncounters as usize) < s.counters.len() {
            let c = &mut s.counters[s.ncounters as usize];
            c.name = [0; 56];
            c.name[..l].copy_from_slice(&b[..l]);
            c.n = n;
            s.ncounters += 1;
        }
    }
}
/// Probe: a rare condition was hit.
pub fn mark(name: &str) { count(name) }
