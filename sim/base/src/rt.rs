//! Bindings of rt.c and the simulated global allocator.
use std::alloc::{GlobalAlloc, Layout, System};
#[repr(C)] #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Ent { pub at: u64, pub kind: u32, pub arg: u32 }
#[repr(C)] #[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed: u64, pub mode: u32, pub pct_depth: u32, pub mean_q: u64, pub pct_len: u64, pub step_cap: u64,
    pub stall_per1024: u32, pub spur_per1024: u32, pub stall_max: u64,
    pub ent_seed: u64, pub ent_mode: u32, pub ent_fault: u32,
    pub clock_base: u64, pub jump_per1024: u32, pub ncpu: u32, pub jump_max: u64,
    pub heap_off: u64, pub heap_down: u32, pub heap_reuse: u32, pub garbage_seed: u64, pub garbage_mode: u32, pub check: u32,
    pub sched: *const Ent, pub nsched: u64, pub occ: *const Ent, pub nocc: u64,
    pub env_seed: u64, pub pool: u32, pub pad: u32,
}
#[repr(C)] #[derive(Clone, Copy, Debug)]
pub struct IoFault { pub kind: u32, pub arg: u32, pub at: u64 }
pub const MAXREC: usize = 1 << 18;
#[repr(C)]
pub struct SimRes {
    pub verdict: u32, pub nthreads: u32, pub steps: u64, pub time: u64, pub switches: u64, pub preempts: u64, pub sched_hash: u64,
    pub nrec: u64, pub rec_overflow: u32, pub blocked: u32,
    pub f_stall: u64, pub f_spur: u64, pub f_wakepick: u64, pub f_jump: u64, pub f_entropy_calls: u64, pub f_entropy_bytes: u64,
    pub f_entropy_eintr: u64, pub f_entropy_short: u64, pub f_yield: u64, pub f_clock_reads: u64, pub f_env: u64,
    pub f_io: [u64; 8], pub io_reads: u64, pub io_opens: u64, pub io_live: u64,
    pub heap_allocs: u64, pub heap_bytes: u64, pub heap_reused: u64, pub mem_checks: u64,
    pub bad_addr: u64, pub bad_size: u64, pub bad_write: u64, pub bad_pc: u64, pub bad_alloc: u64, pub bad_alloc_size: u64, pub bad_kind: u32, pub bad_pad: u32,
    pub msg: [u8; 512],
    pub rec: [Ent; MAXREC],
}
extern "C" {
    pub fn sim_init(res: *mut SimRes, cov: *mut u8);
    pub fn sim_set_res(res: *mut SimRes, cov: *mut u8);
    pub fn sim_map() -> i32;
    pub fn sim_begin(cfg: *const SimCfg);
    pub fn sim_end();
    pub fn sim_note();
    pub fn sim_steps() -> u64;
    pub fn sim_io_live() -> u64;
    pub fn sim_tid() -> i32;
    pub fn sim_point();
    pub fn sim_res_size() -> u64;
    pub fn sim_num_guards() -> u32;
    pub fn sim_io(root: *const u8, f: *const IoFault, n: u32);
    pub fn sim_alloc(size: u64, align: u64) -> *mut u8;
    pub fn sim_free(p: *mut u8, size: u64);
    pub fn sim_heap_active() -> i32;
    pub fn sim_heap_owns(p: *mut u8) -> i32;
    pub fn sim_scribble_stack();
    pub fn sim_set_check(c: u32);
    pub fn sim_set_cap(c: u64);
}
pub fn steps() -> u64 { unsafe { sim_steps() } }
pub fn point() { unsafe { sim_point() } }
pub fn tid() -> i32 { unsafe { sim_tid() } }
pub fn scribble() { unsafe { sim_scribble_stack() } }
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sim_heap_active() != 0 { sim_alloc(l.size() as u64, l.align() as u64) } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sim_heap_owns(p) != 0 { if sim_heap_active() != 0 { sim_free(p, l.size() as u64) } } else { System.dealloc(p, l) }
    }
}
