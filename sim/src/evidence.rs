//! Aggregation of what the runs did.
use crate::run::*;
use serde_json::{json, Map, Value};
use simops::Spec;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Stats {
    pub runs: u64, pub skipped: u64, pub ok: u64, pub known: u64, pub checks: u64, pub steps: u64, pub time: u64, pub threads: u64, pub switches: u64, pub multi: u64, pub nontrivial: u64, pub max_steps: u64,
    pub faults: BTreeMap<String, u64>, pub faulted: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub modes: BTreeMap<String, u64>, pub pools: BTreeMap<String, u64>,
    pub harness: Vec<String>, pub samples: Vec<Value>, pub skips: BTreeMap<String, u64>,
}
fn bump(m: &mut BTreeMap<String, u64>, k: &str, n: u64) { *m.entry(k.to_string()).or_default() += n }
fn mj(m: &BTreeMap<String, u64>) -> Value { Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<Map<_, _>>()) }
fn mm(m: &mut BTreeMap<String, u64>, v: &Value) { if let Some(o) = v.as_object() { for (k, x) in o { bump(m, k, x.as_u64().unwrap_or(0)) } } }
impl Stats {
    pub fn add(&mut self, i: u64, s: &Spec, r: &Run) {
        self.runs += 1;
        match &r.end { End::Ok => self.ok += 1, End::Skipped(w) => { self.skipped += 1; bump(&mut self.skips, w, 1); return } _ => {} }
        self.checks += r.checks; self.steps += r.steps; self.max_steps = self.max_steps.max(r.steps); self.time += r.time; self.threads += r.threads as u64; self.switches += r.switches;
        if r.threads > 1 { self.multi += 1 }
        if r.checks > 0 && (r.switches > 1 || !r.faults.is_empty()) { self.nontrivial += 1 }
        for (k, n) in &r.faults { bump(&mut self.faults, k, *n); bump(&mut self.faulted, k, 1) }
        for (k, n) in &r.probes { bump(&mut self.probes, k, *n) }
        bump(&mut self.modes, ["run to block", "random quanta", "PCT", "bursts", "replay", "rare code and static data"][s.world.mode.min(5) as usize], 1);
        bump(&mut self.pools, &if s.world.pool == 0 { format!("cpus={}", s.world.ncpu) } else { s.world.pool.to_string() }, 1);
        if self.samples.len() < 3 && (r.checks > 0 || self.runs > 50) { self.samples.push(json!({"run": i, "seed": s.seed, "workload": r.sample.chars().take(900).collect::<String>(), "pool": s.world.pool, "mode": s.world.mode, "threads": r.threads, "steps": r.steps, "context_switches": r.switches, "interleaving": format!("{:016x}", r.sched_hash), "comparisons": r.checks, "faults": r.faults})) }
    }
    pub fn json(&self) -> Value {
        json!({"runs": self.runs, "skipped": self.skipped, "ok": self.ok, "known": self.known, "checks": self.checks, "steps": self.steps, "time": self.time, "threads": self.threads, "switches": self.switches, "multi": self.multi, "nontrivial": self.nontrivial, "max_steps": self.max_steps,
            "faults": mj(&self.faults), "faulted": mj(&self.faulted), "probes": mj(&self.probes), "modes": mj(&self.modes), "pools": mj(&self.pools), "skips": mj(&self.skips), "harness": self.harness, "samples": self.samples})
    }
    pub fn merge(&mut self, v: &Value) {
        macro_rules! n { ($($x:ident),*) => { $(self.$x += v[stringify!($x)].as_u64().unwrap_or(0);)* } }
        n!(runs, skipped, ok, known, checks, steps, time, threads, switches, multi, nontrivial);
        self.max_steps = self.max_steps.max(v["max_steps"].as_u64().unwrap_or(0));
        macro_rules! m { ($($x:ident),*) => { $(mm(&mut self.$x, &v[stringify!($x)]);)* } }
        m!(faults, faulted, probes, modes, pools, skips);
        for h in v["harness"].as_array().into_iter().flatten() { self.harness.push(h.as_str().unwrap_or("").to_string()) }
        for s in v["samples"].as_array().into_iter().flatten() { if self.samples.len() < 5 { self.samples.push(s.clone()) } }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn evidence(&self, prop: &str, tier: &str, seed: u64, sh: &Shared, explore_s: f64, wall: f64, report: Option<String>, nw: usize) -> Value {
        let (inter, work, both) = sh.distinct();
        let h = explore_s.max(0.001) / 3600.0;
        json!({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": if report.is_some() { 1 } else { 0 },
            "coverage": {
                "evaluations": self.runs - self.skipped,
                "distinct_nontrivial": both.min(self.nontrivial),
                "rule": simops::scen::rule(prop),
                "samples": self.samples,
                "runs": self.runs, "skipped_runs": self.skipped, "skipped_because": mj(&self.skips), "inconclusive_runs": self.harness.len(), "inconclusive": self.harness.iter().take(5).collect::<Vec<_>>(), "known_findings_met": self.known,
                "comparisons": self.checks, "runs_per_hour": (self.runs as f64 / h) as u64, "seeds_per_hour": (self.runs as f64 / h) as u64, "worker_processes": nw,
                "simulated_time_s": self.time as f64 / 1e9, "scheduler_steps": self.steps, "longest_run_steps": self.max_steps, "context_switches": self.switches, "simulated_threads": self.threads, "multi_threaded_runs": self.multi,
                "distinct_interleavings": inter, "interleaving_measure": "hash over the sequence of context switches (thread switched to, code edge switched at, reason) of a run",
                "distinct_workloads": work, "distinct_workload_interleaving_pairs": both,
                "code_edges_reached": sh.coverage(), "code_edges_instrumented": sh.ncov - 8,
                "faults_injected": mj(&self.faults), "runs_with_fault": mj(&self.faulted), "schedulers": mj(&self.modes), "pool_sizes": mj(&self.pools), "probes": mj(&self.probes),
                "real_components": simops::scen::real(prop), "stub_components": simops::scen::stub(prop),
                "violation": report,
            },
            "assumptions": ["context switches happen at basic-block edges and memory accesses of the instrumented crates and at blocking calls, so effects of weak memory ordering are not explored", "uninstrumented dependencies (std, image, rand, nalgebra, rustdct) run atomically between two such points"],
        })
    }
}
