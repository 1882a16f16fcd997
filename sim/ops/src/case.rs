use simbase::digest::{dig, Digest};
use simbase::gen::G;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// One concrete library call with its arguments. `run` may be called any number of times from any thread.
#[derive(Clone)]
pub struct Case {
    pub op: &'static str,
    pub desc: String,
    pub run: Arc<dyn Fn() -> u64 + Send + Sync>,
    /// digest of everything passed by shared reference
    pub inputs: Arc<dyn Fn() -> u64 + Send + Sync>,
}
pub const PANICKED: u64 = 0xDEAD_0000_DEAD_0000;
impl Case {
    /// Result digest, or PANICKED.
    pub fn exec(&self) -> u64 {
        match catch_unwind(AssertUnwindSafe(|| (self.run)())) {
            Ok(d) => if d == PANICKED { 1 } else { d },
            Err(p) => { std::mem::forget(p); PANICKED }
        }
    }
}
pub fn mk<I, F>(op: &'static str, desc: String, input: I, f: F) -> Case
where I: Digest + Send + Sync + 'static, F: Fn(&I) -> u64 + Send + Sync + 'static {
    let a = Arc::new(input);
    let b = a.clone();
    Case { op, desc, run: Arc::new(move || f(&a)), inputs: Arc::new(move || dig(&*b)) }
}
pub const PAR: u32 = 1; // uses the thread pool implicitly
pub const SEEDED: u32 = 2;
pub const RANDOM: u32 = 4; // draws its own randomness: result not determined by the arguments
pub const EXPL: u32 = 8; // `_parallel` variant, not available without rayon
#[derive(Clone)]
pub struct Op { pub name: &'static str, pub tags: u32, pub weight: u32, pub make: fn(&mut G) -> Case }
