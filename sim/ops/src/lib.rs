//! Instrumented workload crate: the catalogue of library calls and the per-property scenarios. Generic library code is
//! monomorphised here, so every basic block and memory access in it is a preemption point of the simulator.
#![allow(clippy::too_many_arguments, clippy::type_complexity)]
pub mod aborts;
pub mod case;
pub mod cat;
pub mod odd;
pub mod scen;
pub mod spec;
pub mod user;
pub use case::{Case, Op};
pub use spec::{Outcome, Plan, Refs, Spec, World};
