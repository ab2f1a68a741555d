//! Generic parts of the model checker: explorer, supervision, evidence, allocator, drop ledger.
pub mod alloc;
pub mod bfs;
pub mod ledger;
pub mod runner;
