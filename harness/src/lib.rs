//! Shared parts of the monitors: PRNG, case driver and reporting, single-thread executor with stall
//! detection, value ledger, instrumented sequences, random grammars with a reference interpreter.
pub mod driver;
pub mod exec;
pub mod flat;
pub mod grammar;
pub mod huge;
pub mod iter;
pub mod ledger;
pub mod rng;
pub mod tseq;
