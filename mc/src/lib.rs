//! Model checking harness for the sequential properties.
pub mod comps;
pub mod exec;
pub mod lockstep;
#[cfg(not(miri))]
pub mod many;
pub mod observe;
pub mod op;
pub mod system;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: engine::alloc::Checking = engine::alloc::Checking;
