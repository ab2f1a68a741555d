//! Support for states close to the limits of the world: an allocator that backs huge allocations with
//! little memory, and exploration by forking.
pub mod alias;
pub mod fork;

#[global_allocator]
static ALLOC: alias::Aliasing = alias::Aliasing;
