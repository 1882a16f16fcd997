//! Scenarios: one module per property (or family of properties).
use crate::case::{Case, Op, EXPL, PAR, RANDOM, SEEDED};
use crate::spec::{Outcome, Plan, Refs, Spec};
use simbase::gen::G;
use simbase::rng::{sub, Rng};
use simbase::Dig;
use std::sync::Arc;

pub mod calls;
#[cfg(feature = "par")]
pub mod canvas;
#[cfg(feature = "par")]
pub mod cb;
#[cfg(feature = "par")]
pub mod ctx;
#[cfg(feature = "par")]
pub mod io;
#[cfg(feature = "par")]
pub mod memory;
#[cfg(feature = "par")]
pub mod pairs;
#[cfg(feature = "par")]
pub mod progress;
#[cfg(feature = "par")]
pub mod rnd;
pub mod uf;
#[cfg(feature = "par")]
pub mod win;

pub fn all_ops() -> Vec<Op> { crate::cat::ops() }
pub fn pick_op(r: &mut Rng, ops: &[Op], ok: impl Fn(&Op) -> bool) -> Op {
    let c: Vec<&Op> = ops.iter().filter(|o| ok(o)).collect();
    let tot: u64 = c.iter().map(|o| o.weight as u64).sum();
    let mut k = r.below(tot);
    for o in &c { if k < o.weight as u64 { return (*o).clone() } k -= o.weight as u64 }
    unreachable!()
}
pub const NOT_RANDOM: fn(&Op) -> bool = |o| o.tags & RANDOM == 0;
pub fn is(o: &Op, t: u32) -> bool { o.tags & t != 0 }
pub fn show(d: Option<u64>) -> String { match d { None => "crash/hang".into(), Some(crate::case::PANICKED) => "panic".into(), Some(x) => format!("{x:016x}") } }

/// The scenario of a property.
pub fn plan(s: &Spec) -> Plan {
    match s.prop.as_str() {
        #[cfg(feature = "par")]
        "C01" => pairs::c01(s),
        "C02" => calls::c02(s),
        "C03" => calls::c03(s),
        "C04" => calls::c04(s),
        "C05" => calls::c05(s),
        #[cfg(feature = "par")]
        "C06" => rnd::c06(s),
        #[cfg(feature = "par")]
        "C07" => rnd::c07(s),
        #[cfg(feature = "par")]
        "C08" => cb::c08(s),
        #[cfg(feature = "par")]
        "C09" => cb::c09(s),
        #[cfg(feature = "par")]
        "C10" => progress::c10(s),
        #[cfg(feature = "par")]
        "C11" => memory::c11(s),
        #[cfg(feature = "par")]
        "C12" => io::c12(s),
        #[cfg(feature = "par")]
        "C13" => win::c13(s),
        #[cfg(feature = "par")]
        "C14" => canvas::c14(s),
        "C15" => uf::c15(s),
        p => panic!("no scenario for {p}"),
    }
}
/// Run `f`s on as many simulated threads and collect their results in order.
pub fn on_threads<T: Send + 'static>(fs: Vec<Box<dyn FnOnce() -> T + Send>>) -> Vec<std::thread::Result<T>> {
    let hs: Vec<_> = fs.into_iter().map(|f| std::thread::spawn(f)).collect();
    hs.into_iter().map(|h| h.join()).collect()
}
pub fn compare(o: &mut Outcome, what: &str, c: &Case, got: u64, want: Option<u64>) {
    o.checks += 1;
    let mut d = Dig(o.digest); d.u64(got); o.digest = d.get();
    match want {
        None => o.probe("reference crashed", 1),
        Some(w) => {
            if w == crate::case::PANICKED { o.probe("calls that panic", 1) }
            if got != w { o.fail("result differs", format!("{} [{}] {what}: got {}, alone {}", c.op, c.desc, show(Some(got)), show(Some(w)))) }
        }
    }
}
pub fn lines(cs: &[Case]) -> String { cs.iter().map(|c| format!("{} [{}]", c.op, c.desc)).collect::<Vec<_>>().join("; ") }
pub fn subseed(s: &Spec, t: u64) -> u64 { sub(s.seed, t) }
pub fn gen(s: &Spec) -> G { G::new(sub(s.seed, 1), s.cap) }
pub type Shared<T> = Arc<std::sync::Mutex<T>>;
pub fn refs_of(r: &Refs, i: usize) -> Option<u64> { r.d.get(i).copied().flatten() }
pub const _T: u32 = EXPL | PAR | SEEDED;

/// Per-property adjustments of the random world.
pub fn tune(prop: &str, w: &mut crate::spec::World, r: &mut Rng) {
    match prop {
        "C11" | "C08" | "C13" => w.check = 1,
        "C10" => { if r.chance(1, 2) { w.stall = r.u32(50, 400) } if r.chance(1, 2) { w.spur = r.u32(50, 500) } }
        "C06" | "C07" => { w.ent_mode = r.pick(&[0, 0, 0, 1, 2, 3, 3, 4]); w.ent_fault = r.below(4) as u32 }
        _ => {}
    }
}
/// Properties whose oracle is the same call made alone in a fresh process.
pub fn needs_refs(prop: &str) -> bool { matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C11") }
/// A reference call that hangs or crashes makes the comparison moot (another property is broken then).
pub fn refs_must_end(prop: &str) -> bool { !matches!(prop, "C08" | "C11") }
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "random image pairs, kernels and closures for every (sequential, parallel) pair of the library; the parallel call runs under a seeded schedule and pool, in a random calling context",
        "C02" => "every call of the catalogue on random arguments; the answer is that of a build without rayon on the same arguments",
        "C03" => "one to four threads, each with one to four catalogue calls on private or shared (immutable) inputs; every answer compared with the call alone in a fresh process",
        "C04" => "histories of one to eight calls (rarely hundreds or ten thousands) with repeats, aborted calls (panics in callbacks and by arguments) and fresh threads; every answer compared with the call alone in a fresh process",
        "C05" => "the same call in two worlds that differ in entropy, clock, environment, CPU count, heap placement, uninitialised memory and stack garbage, and with equal but differently built inputs",
        "C06" => "seeded noise and samplers with injected entropy streams, concurrent and repeated; equal seeds give equal answers, and unseeded calls do not disturb them",
        "C07" => "randomised calls over entropy streams from uniform to constant and faulty; every answer checked against the non-random part of its contract",
        "C08" => "callbacks that panic at chosen invocations on chosen threads; afterwards inputs, outputs, pool and later calls are checked",
        "C09" => "callbacks that record their invocations; the recorded history must be a permutation of exactly the promised invocations with the promised arguments",
        "C10" => "catalogue and unusual arguments from up to four threads in any calling context, with stalls and spurious wake-ups; every run must end within the step budget and without absurd allocations",
        "C11" => "catalogue and unusual arguments on a heap that checks every access; hostile callbacks; garbage in fresh memory; every memory access of the instrumented crates and every bulk copy is checked",
        "C12" => "up to three files (twelve formats, damaged in eight ways) and six loads with short, interrupted, failing and truncated reads, replaced files and concurrent loaders; compared with decoding the same bytes in memory",
        "C13" => "one to three displays of up to six (rarely 20) images each under up to 40 (rarely 300) events (stale, duplicate, unrelated ones included) with one injected windowing failure; the reference state says which windows show what and when the call returns",
        "C14" => "drawing calls on canvases that record every access and fail (panic) at a chosen one; prefix, bounds and equality with the copying form are checked",
        "C15" => "union-find histories from one or more threads behind a lock, out-of-range elements included; every answer compared with a partition reference",
        _ => "",
    }
}
pub fn real(prop: &str) -> &'static str {
    match prop {
        "C12" => "imageproc, image with its decoders, png, gif, tiff, jpeg and so on, std::fs, the kernel's files (all real code)",
        "C13" => "imageproc's window code, the sdl2 crate, image (all real code)",
        _ => "imageproc, rayon, rayon-core, crossbeam, image, rand, nalgebra, rustdct, std (all real code on real OS threads)",
    }
}
pub fn stub(prop: &str) -> &'static str {
    match prop {
        "C12" => "rt.c in front of open, read, pread, readv, lseek and close (injects the faults, then calls the kernel); scheduler, clock, entropy, environment, heap",
        "C13" => "SDL2 itself (base/src/sdl.rs, a model at its C interface); scheduler, clock, entropy, environment, heap",
        _ => "kernel services behind rt.c: futex, thread scheduling, clock, sleep, entropy, CPU count, environment, heap",
    }
}
