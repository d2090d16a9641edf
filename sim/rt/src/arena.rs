//! The simulated heap. While a thread is inside a library section every allocation comes from
//! here; where a block is placed, what it contains before it is written and what happens to it
//! after it is freed are decisions of the run.
use crate::{rng::Rng, sched, shm};
use std::alloc::{GlobalAlloc, Layout, System};

const BASE: usize = 0x1000_0000_0000;
const SIZE: usize = 4 << 30;
const EF_BASE: usize = 0x1100_0000_0000;
const EF_SIZE: usize = 2 << 30;
const MAXB: usize = 1 << 24;
const PAGE: usize = 4096;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy { Never, Lifo, FirstFit, Random, Fence }

#[derive(Clone, Copy)]
#[repr(C)]
struct Block { addr: usize, size: usize, cap: usize, live: u32, fence: u32, born: u64, died: u64, by: u32, freed_by: u32 }
#[derive(Debug, Clone, Copy)]
pub struct BlockInfo { pub addr: usize, pub size: usize, pub live: bool, pub id: usize, pub born: u64, pub died: u64 }

static mut BLOCKS: *mut Block = core::ptr::null_mut();
static mut NB: usize = 1;
static mut SHADOW: *mut u32 = core::ptr::null_mut(); // per 16-byte granule of the arena
static mut PSHADOW: *mut u32 = core::ptr::null_mut(); // per page of the fence region
static mut BUMP: usize = BASE;
static mut NFENCE: usize = 0;
static mut EBUMP: usize = EF_BASE;
static mut POLICY: Policy = Policy::Never;
static mut RED: usize = 16;
static mut POISON: u8 = 0xA5;
static mut FPOISON: u8 = 0xD7;
static mut FENCE_START: bool = false;
static mut ARNG: Rng = Rng::raw(0);
static mut FREE: Vec<(usize, usize)> = Vec::new();
static mut LISTS: Vec<Vec<usize>> = Vec::new();
static mut LIVE_BYTES: usize = 0;
pub static mut REUSED: u64 = 0;
pub static mut NALLOC: u64 = 0;

pub struct ArenaCfg { pub policy: Policy, pub red: usize, pub poison: u8, pub fence_start: bool }

unsafe fn map(addr: usize, size: usize, prot: i32) -> usize {
    let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | if addr != 0 { libc::MAP_FIXED_NOREPLACE } else { 0 };
    let p = libc::mmap(addr as *mut _, size, prot, fl, -1, 0);
    assert!(p != libc::MAP_FAILED && (addr == 0 || p as usize == addr));
    p as usize
}
/// Once per process, before forking.
pub fn init_maps() {
    unsafe {
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        map(BASE, SIZE, rw);
        map(EF_BASE, EF_SIZE, libc::PROT_NONE);
        BLOCKS = map(0, MAXB * core::mem::size_of::<Block>(), rw) as *mut Block;
        SHADOW = map(0, SIZE / 16 * 4, rw) as *mut u32;
        PSHADOW = map(0, EF_SIZE / PAGE * 4, rw) as *mut u32;
    }
}
pub unsafe fn init(c: ArenaCfg, seed: u64) {
    POLICY = c.policy; RED = c.red; POISON = c.poison; FPOISON = c.poison ^ 0x72; FENCE_START = c.fence_start;
    ARNG = Rng::new(seed ^ 0xa11c);
    LISTS = (0..1024).map(|_| Vec::new()).collect();
}
pub fn policy() -> Policy { unsafe { POLICY } }
/// Change what fresh memory contains (for "does the output depend on it" checks).
pub fn set_poison(p: u8) { unsafe { POISON = p; FPOISON = p ^ 0x72; } }
/// Change the placement policy in mid-run (existing blocks are unaffected).
pub fn set_policy(p: Policy) { unsafe { POLICY = p; } }

fn up(x: usize, a: usize) -> usize { (x + a - 1) & !(a - 1) }

unsafe fn new_block(addr: usize, size: usize, cap: usize, fence: bool) -> usize {
    if NB >= MAXB { shm::fail(2, "excessive-allocation/count", "more than sixteen million allocations in one run"); }
    let id = NB;
    NB += 1;
    *BLOCKS.add(id) = Block { addr, size, cap, live: 1, fence: u32::from(fence), born: sched::now(), died: 0, by: sched::tid() as u32, freed_by: 0 };
    id
}
unsafe fn fence_alloc(size: usize, align: usize, at_start: bool) -> *mut u8 {
    let pages = up(size.max(1), PAGE) / PAGE;
    let start = EBUMP + PAGE;
    let end = start + pages * PAGE;
    if end + PAGE > EF_BASE + EF_SIZE { shm::fail(2, "excessive-allocation/bytes", "the run allocated more than the simulated memory holds"); }
    EBUMP = end;
    NFENCE += 1;
    if libc::mprotect(start as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        shm::fail(3, "harness", "mprotect failed");
    }
    let addr = if at_start { start } else { (end - size.max(1)) & !(align - 1) };
    core::ptr::write_bytes(start as *mut u8, POISON, pages * PAGE);
    let id = new_block(addr, size, pages * PAGE, true);
    for p in 0..pages { *PSHADOW.add((start - EF_BASE) / PAGE + p) = id as u32; }
    addr as *mut u8
}
unsafe fn take(cap: usize, align: usize) -> usize {
    // cap is a multiple of 16
    match POLICY {
        Policy::Lifo => {
            let c = cap / 16;
            if align <= 16 && c < LISTS.len() {
                if let Some(a) = LISTS[c].pop() { REUSED += 1; return a; }
            }
        }
        Policy::FirstFit | Policy::Random => {
            let n = FREE.len();
            if n > 0 && align <= 16 && !(POLICY == Policy::Random && ARNG.below(4) == 0) {
                let off = if POLICY == Policy::Random { ARNG.below(n as u64) as usize } else { 0 };
                for k in 0..n {
                    let i = (off + k) % n;
                    let (s, l) = FREE[i];
                    if l >= cap {
                        REUSED += 1;
                        let slack = (l - cap) / 16;
                        let sk = if POLICY == Policy::Random && slack > 0 { ARNG.below(slack as u64 + 1) as usize * 16 } else { 0 };
                        // keep [s, s+sk) and [s+sk+cap, s+l)
                        FREE.remove(i);
                        if l - sk - cap > 0 { FREE.insert(i, (s + sk + cap, l - sk - cap)); }
                        if sk > 0 { FREE.insert(i, (s, sk)); }
                        return s + sk;
                    }
                }
            }
        }
        _ => {}
    }
    let a = up(BUMP, align.max(16));
    BUMP = a + cap;
    if BUMP > BASE + SIZE { shm::fail(2, "excessive-allocation/bytes", "the run allocated more than the simulated memory holds"); }
    a
}
unsafe fn give(a: usize, cap: usize) {
    match POLICY {
        Policy::Lifo => { let c = cap / 16; if c < LISTS.len() { LISTS[c].push(a); } }
        Policy::FirstFit | Policy::Random => {
            let i = FREE.partition_point(|f| f.0 < a);
            FREE.insert(i, (a, cap));
            if i + 1 < FREE.len() && FREE[i].0 + FREE[i].1 == FREE[i + 1].0 { FREE[i].1 += FREE[i + 1].1; FREE.remove(i + 1); }
            if i > 0 && FREE[i - 1].0 + FREE[i - 1].1 == FREE[i].0 { FREE[i - 1].1 += FREE[i].1; FREE.remove(i); }
        }
        _ => {}
    }
}
unsafe fn alloc(size: usize, align: usize) -> *mut u8 {
    NALLOC += 1;
    if size > 200 << 20 { shm::fail(2, "excessive-allocation/single", &format!("one allocation of {size} bytes in {}", shm::cur_op(sched::tid()))); }
    LIVE_BYTES += size;
    // every fenced block, released or not, is a memory mapping of its own: the system has a limit on those
    if POLICY == Policy::Fence && EBUMP < EF_BASE + EF_SIZE / 2 && NFENCE < 25_000 { return fence_alloc(size, align, FENCE_START && size > 64); }
    let cap = up(size.max(1) + RED, 16);
    let a = take(cap, align);
    core::ptr::write_bytes(a as *mut u8, POISON, cap);
    let id = new_block(a, size, cap, false);
    let g = (a - BASE) / 16;
    for k in 0..cap / 16 { *SHADOW.add(g + k) = id as u32; }
    // red zone, exact to the byte
    for k in size..cap { *((a + k) as *mut u8) = 0xFB; }
    a as *mut u8
}
unsafe fn dealloc(p: *mut u8) {
    let a = p as usize;
    let id = id_of(a);
    if id == 0 { shm::fail(2, &format!("bad-free/{}", shm::cur_op(sched::tid())), &format!("freed {a:#x}, which was never allocated")); }
    let b = &mut *BLOCKS.add(id);
    if b.addr != a { shm::fail(2, &format!("bad-free/{}", shm::cur_op(sched::tid())), &format!("freed {a:#x}, which is inside an allocation")); }
    if b.live == 0 { shm::fail(2, &format!("double-free/{}", shm::cur_op(sched::tid())), &format!("freed a block of {} bytes twice", b.size)); }
    check_red(b);
    b.live = 0;
    b.died = sched::now();
    b.freed_by = sched::tid() as u32;
    LIVE_BYTES -= b.size;
    if b.fence != 0 {
        let start = a & !(PAGE - 1);
        libc::mprotect(start as *mut _, b.cap, libc::PROT_NONE);
        libc::madvise(start as *mut _, b.cap, libc::MADV_DONTNEED);
    } else {
        if b.cap >= 256 << 10 && matches!(POLICY, Policy::Never | Policy::Lifo) {
            // not used again: no need to keep the pages
            let (lo, hi) = (up(a, PAGE), (a + b.cap) & !(PAGE - 1));
            libc::madvise(lo as *mut _, hi - lo, libc::MADV_DONTNEED);
            core::ptr::write_bytes(p, FPOISON, lo - a);
            core::ptr::write_bytes(hi as *mut u8, FPOISON, a + b.cap - hi);
        } else {
            core::ptr::write_bytes(p, FPOISON, b.cap);
        }
        give(a, b.cap);
    }
}
unsafe fn check_red(b: &Block) {
    if b.fence != 0 { return; }
    for k in b.size..b.cap {
        if *((b.addr + k) as *const u8) != 0xFB {
            shm::fail(2, &format!("heap-overflow/{}", shm::cur_op(sched::tid())), &format!("the library wrote {} bytes past a block of {} bytes", k - b.size + 1, b.size));
        }
    }
}
unsafe fn id_of(a: usize) -> usize {
    if (BASE..BASE + SIZE).contains(&a) { *SHADOW.add((a - BASE) / 16) as usize }
    else if (EF_BASE..EF_BASE + EF_SIZE).contains(&a) { *PSHADOW.add((a - EF_BASE) / PAGE) as usize }
    else { 0 }
}
fn ours(a: usize) -> bool { (BASE..BASE + SIZE).contains(&a) || (EF_BASE..EF_BASE + EF_SIZE).contains(&a) }

/// The block this address was last part of.
pub fn block_info(a: usize) -> Option<BlockInfo> {
    unsafe {
        let id = id_of(a);
        if id == 0 { return None; }
        let b = &*BLOCKS.add(id);
        Some(BlockInfo { addr: b.addr, size: b.size, live: b.live != 0, id, born: b.born, died: b.died })
    }
}
pub fn is_live(a: usize) -> bool { block_info(a).is_some_and(|b| b.live && a >= b.addr && a < b.addr + b.size.max(1)) }
/// Is this particular block (by id) still live?
pub fn block_live(id: usize) -> bool { unsafe { id != 0 && (*BLOCKS.add(id)).live != 0 } }
/// Where the list of blocks stands now.
pub fn mark() -> usize { unsafe { NB } }
/// Blocks of at least `min` bytes the calling thread allocated since `mark` which are still there.
pub fn kept_since(mark: usize, min: usize) -> usize {
    unsafe {
        let me = sched::tid() as u32;
        (mark..NB).map(|i| &*BLOCKS.add(i)).filter(|b| b.live != 0 && b.by == me && b.size >= min).count()
    }
}
pub fn live_bytes() -> usize { unsafe { LIVE_BYTES } }
/// Check every live block's red zone.
pub fn check_all() {
    unsafe { for i in 1..NB { let b = &*BLOCKS.add(i); if b.live != 0 { check_red(b); } } }
}
/// A copy of `d` with an inaccessible page right behind its last byte (or right before its first).
pub fn guarded_copy(d: &[u8], at_start: bool) -> &'static mut [u8] {
    unsafe {
        let p = fence_alloc(d.len(), 1, at_start);
        core::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
        core::slice::from_raw_parts_mut(p, d.len())
    }
}
/// Make a guarded copy inaccessible: its storage is gone.
pub fn guarded_free(d: &[u8]) { unsafe { dealloc(d.as_ptr().cast_mut()) } }

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !sched::IN_LIB { return System.alloc(l); }
        sched::IN_LIB = false;
        sched::point(sched::ALLOC, 0xa110c);
        let p = alloc(l.size(), l.align());
        sched::IN_LIB = true;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ours(p as usize) { System.dealloc(p, l); return; }
        let lib = sched::IN_LIB;
        sched::IN_LIB = false;
        dealloc(p);
        if lib { sched::point(sched::ALLOC, 0xf4ee); }
        sched::IN_LIB = lib;
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !sched::IN_LIB { return System.alloc_zeroed(l); }
        let p = self.alloc(l);
        core::ptr::write_bytes(p, 0, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ours(p as usize) && !sched::IN_LIB { return System.realloc(p, l, n); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}

// ---- faults -------------------------------------------------------------------------------------
pub fn altstack() {
    unsafe {
        let sz = 64 << 10;
        let p = libc::mmap(core::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, core::ptr::null_mut());
    }
}
extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let was_lib = sched::IN_LIB;
        sched::IN_LIB = false;
        let a = (*info).si_addr() as usize;
        let uc = &*(ctx as *const libc::ucontext_t);
        let sp = uc.uc_mcontext.gregs[libc::REG_RSP as usize] as usize;
        let op = shm::cur_op(sched::tid());
        let (class, what) = if sig == libc::SIGABRT { ("abort", "the process aborted".to_string()) }
            else if sig == libc::SIGXCPU { ("hang", "the run used up its processor time".to_string()) }
            else if sig != libc::SIGSEGV && sig != libc::SIGBUS { ("crash", format!("signal {sig}")) }
            else if a.abs_diff(sp) < 1 << 16 && !ours(a) { ("stack-overflow", "the stack overflowed".to_string()) }
            else if let Some(b) = block_info(a) {
                if b.live { ("out-of-bounds", format!("access {a:#x} outside the live block {:#x}+{}", b.addr, b.size)) }
                else { ("use-after-free", format!("access {a:#x} in the freed block {:#x}+{} (freed at step {})", b.addr, b.size, b.died)) }
            } else if ours(a) {
                // a guard page: which block is next to it?
                let before = block_info(a - PAGE.min(a - EF_BASE.min(a)));
                ("out-of-bounds", format!("access {a:#x} in a guard page (block before: {before:?})"))
            } else { ("wild-access", format!("access to {a:#x}")) };
        if sig == libc::SIGXCPU && !was_lib { shm::fail(3, "harness", &format!("out of processor time in the harness, in operation {op}")); }
        shm::fail(2, &format!("{class}/{op}"), &format!("{what}, in operation {op}"));
    }
}
pub fn install_fault_handlers() {
    unsafe {
        altstack();
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGXCPU, libc::SIGTRAP] {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_fault as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, core::ptr::null_mut());
        }
    }
}
