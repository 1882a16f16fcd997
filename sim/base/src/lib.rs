//! Uninstrumented base of the harness: PRNG, digests, input generators, bindings of the simulation runtime.
pub mod digest;
pub mod gen;
pub mod rng;
pub mod rt;
pub use digest::{Dig, Digest};
pub use rng::Rng;
pub mod model;
pub mod sdl;
