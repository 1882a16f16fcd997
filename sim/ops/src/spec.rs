//! Description of one run: everything the run depends on besides the code.
use simbase::rng::{sub, Rng};
use simbase::rt::{Ent, IoFault, SimCfg};

#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub sched_seed: u64, pub mode: u32, pub mean_q: u64, pub pct_depth: u32, pub pct_len: u64,
    pub stall: u32, pub spur: u32, pub stall_max: u64,
    pub ent_seed: u64, pub ent_mode: u32, pub ent_fault: u32,
    pub clock_base: u64, pub jump: u32, pub jump_max: u64, pub ncpu: u32,
    pub heap_off: u64, pub heap_down: u32, pub heap_reuse: u32, pub garbage_seed: u64, pub garbage_mode: u32,
    /// rayon pool size; 0 = not set, i.e. chosen from the simulated CPU count
    pub pool: u32,
    /// 0 = no extra environment variables
    pub env_seed: u64,
    pub check: u32,
    /// yielding is cheap: used to tell a slow run from one that never ends
    pub patient: u32,
}
impl World {
    /// The reference world: one CPU, no preemption, no faults.
    pub fn neutral() -> World {
        World { sched_seed: 1, mode: 0, mean_q: 1000, pct_depth: 0, pct_len: 1, stall: 0, spur: 0, stall_max: 1, ent_seed: 7, ent_mode: 0, ent_fault: 0,
            clock_base: 1_600_000_000, jump: 0, jump_max: 1, ncpu: 1, heap_off: 0, heap_down: 0, heap_reuse: 0, garbage_seed: 3, garbage_mode: 1, pool: 1, env_seed: 0, check: 0, patient: 0 }
    }
    /// A world with random schedule, pool and ambient state, all fault kinds enabled with swarm probabilities.
    pub fn random(seed: u64) -> World {
        let mut r = Rng::new(sub(seed, 0x57));
        let mode = r.pick(&[1, 1, 1, 2, 2, 3, 3, 5, 5, 5, 5, 0]);
        World {
            sched_seed: r.next(), mode, mean_q: r.pick(&[12, 40, 150, 600, 2500, 12000]), pct_depth: r.u32(1, 12), pct_len: 0,
            stall: if r.chance(1, 2) { 0 } else { r.u32(1, 200) }, spur: if r.chance(2, 3) { 0 } else { r.u32(1, 300) }, stall_max: r.pick(&[500, 20_000, 1_000_000]),
            ent_seed: r.next(), ent_mode: r.pick(&[0, 0, 0, 0, 1, 2, 3, 4]), ent_fault: r.pick(&[0, 0, 1, 2, 3]),
            clock_base: r.pick(&[0, 1_000_000_000, 1_700_000_000, 4_000_000_000, -2_000_000_000i64]) as u64, jump: r.pick(&[0, 0, 100, 512]), jump_max: r.pick(&[1 << 21, 1 << 30, 1 << 40]), ncpu: r.pick(&[1, 2, 3, 4, 6, 8, 16]),
            heap_off: r.below(1 << 16) * 16, heap_down: r.below(2) as u32, heap_reuse: r.below(2) as u32, garbage_seed: r.next(), garbage_mode: r.pick(&[0, 0, 0, 1, 2]),
            pool: r.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 7, 8, 8, 12, 16, 0]), env_seed: if r.chance(1, 2) { 0 } else { r.next() | 1 }, check: 0, patient: 0,
        }
    }
    pub fn cfg(&self, step_cap: u64, sched: &[Ent], occ: &[Ent], replay: bool) -> SimCfg {
        SimCfg {
            seed: self.sched_seed, mode: if replay { 4 } else { self.mode }, pct_depth: self.pct_depth, mean_q: self.mean_q.max(1), pct_len: self.pct_len.max(1), step_cap,
            stall_per1024: self.stall, spur_per1024: self.spur, stall_max: self.stall_max.max(1), ent_seed: self.ent_seed, ent_mode: self.ent_mode, ent_fault: self.ent_fault,
            clock_base: self.clock_base, jump_per1024: self.jump, ncpu: self.ncpu.max(1), jump_max: self.jump_max, heap_off: self.heap_off, heap_down: self.heap_down, heap_reuse: self.heap_reuse,
            garbage_seed: self.garbage_seed, garbage_mode: self.garbage_mode, check: self.check,
            sched: sched.as_ptr(), nsched: sched.len() as u64, occ: occ.as_ptr(), nocc: occ.len() as u64, env_seed: self.env_seed, pool: self.pool, pad: self.patient,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub prop: String,
    pub seed: u64,
    /// upper bound of image areas
    pub cap: u64,
    /// indices of workload items left out (minimisation)
    pub drop: Vec<usize>,
    pub world: World,
    /// explicit schedule (replay) instead of the world's scheduler
    pub sched: Option<Vec<Ent>>,
    pub occ: Vec<Ent>,
}
impl Spec {
    pub fn rng(&self, tag: u64) -> Rng { Rng::new(sub(self.seed, tag)) }
    pub fn kept(&self, i: usize) -> bool { !self.drop.contains(&i) }
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub probes: Vec<(String, u64)>,
    /// human-readable workload
    pub sample: String,
    /// number of workload items that can be dropped
    pub items: usize,
    pub checks: u64,
    /// digest of everything observed, for determinism tests
    pub digest: u64,
}
impl Outcome {
    pub fn fail(&mut self, class: &str, detail: String) { if self.viol.is_none() { self.viol = Some((class.to_string(), detail)) } }
    pub fn probe(&mut self, name: &str, n: u64) { match self.probes.iter_mut().find(|p| p.0 == name) { Some(p) => p.1 += n, None => self.probes.push((name.to_string(), n)) } }
}
pub struct Plan {
    /// cases whose result in isolation is needed
    pub refs: Vec<crate::case::Case>,
    pub items: usize,
    pub desc: String,
    pub io: Option<(String, Vec<IoFault>)>,
    pub go: Box<dyn FnOnce(&Refs) -> Outcome>,
}
/// Isolated results: digest per reference case; None if the isolated call crashed or did not end.
#[derive(Clone, Debug, Default)]
pub struct Refs { pub d: Vec<Option<u64>>, pub steps: u64 }
