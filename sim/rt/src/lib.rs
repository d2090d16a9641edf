//! Simulation runtime: everything the simulator decides lives here.
//!
//! * `sched`  - one token, real OS threads, one runs at a time; preemption at any control-flow
//!              edge of the instrumented code, at allocator calls, at futex calls and at operation
//!              boundaries; futexes are simulated.
//! * `arena`  - the simulated heap the library allocates from.
//! * `tape`   - every random draw of a run, recorded, replayable and shrinkable.
//! * `shm`    - what a run reports to its parent.
//! * `run`    - fork-per-run driver.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
pub mod arena;
pub mod rng;
pub mod run;
pub mod sched;
pub mod shm;
pub mod tape;

pub use arena::{block_info, guarded_copy, guarded_free, is_live, BlockInfo};
pub use rng::Rng;
pub use run::{run_forked, Outcome, Plan, Src, Status};
pub use sched::{boundary, call, in_lib, lib, now, pause_lib, tid, Panicked};
pub use shm::{count, count_n, ev, fail, mark, set_op, tracing, trace_text};
pub use tape::Tape;

#[macro_export]
macro_rules! trace {
    ($($a:tt)*) => { if $crate::tracing() { $crate::pause_lib(|| $crate::trace_text(&format!($($a)*))) } };
}
/// Report a violation of the property and end the run.
#[macro_export]
macro_rules! violation {
    ($class:expr, $($a:tt)*) => { $crate::pause_lib(|| $crate::fail(2, &format!("{}", $class), &format!($($a)*))) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($a:tt)*) => { if !($cond) { $crate::violation!($class, $($a)*) } };
}
