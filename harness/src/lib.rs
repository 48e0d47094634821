//! Runtime-monitoring harness for laudv/bitboost: common machinery (PRNG, reports, panic
//! attribution, workload generation, tree probes). Every property has its own binary in src/bin.
pub mod rng;
pub mod driver;
pub mod gen;
pub mod probe;
pub mod exact;
pub mod session;
pub mod mon;
pub mod bits;
