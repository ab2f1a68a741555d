//! Component types used by the harness.

use engine::{alloc, ledger};
use std::cell::Cell;

/// A component type known to the harness.
pub trait Comp: Send + Sync + 'static + Sized {
    /// Position in the component universe.
    const I: usize;
    const NAME: &'static str;
    /// A new value and what it must read back as.
    fn make() -> (Self, u32);
    /// What the value reads as. Reports corrupted or dropped values.
    fn val(&self) -> u32;
}

const MAGIC: u32 = 0x5eed_0b0e;

fn check_tok(name: &str, tok: u32, magic: u32) -> u32 {
    if magic != tok ^ MAGIC {
        ledger::error(format!("{name} component reads as garbage ({tok:#x}, {magic:#x})"));
        return u32::MAX;
    }
    if !ledger::is_live(tok) {
        ledger::error(format!("{name} component #{tok} is visible after it was dropped or moved out"));
    }
    tok
}

/// Heap-allocated, tracked.
pub struct A(Box<(u32, u32)>);

impl Comp for A {
    const I: usize = 0;
    const NAME: &'static str = "A";
    fn make() -> (Self, u32) {
        alloc::untagged(|| {
            let t = ledger::issue();
            (Self(Box::new((t, t ^ MAGIC))), t)
        })
    }
    fn val(&self) -> u32 {
        // The pointer itself may be garbage, so it is checked before it is followed.
        #[cfg(not(miri))]
        {
            let raw = std::ptr::from_ref::<Box<(u32, u32)>>(&self.0).cast::<u64>();
            let p = unsafe { raw.read() };
            if p == u64::from_ne_bytes([0xA5; 8]) || p == u64::from_ne_bytes([0xDB; 8]) || p % 4 != 0 || p < 4096 {
                ledger::error(format!("A component reads as garbage ({p:#x})"));
                return u32::MAX;
            }
        }
        check_tok("A", self.0 .0, self.0 .1)
    }
}

impl Drop for A {
    fn drop(&mut self) {
        ledger::on_drop(self.0 .0);
    }
}

/// Over-aligned, tracked.
#[repr(align(64))]
pub struct B {
    tok: u32,
    magic: u32,
}

impl Comp for B {
    const I: usize = 1;
    const NAME: &'static str = "B";
    fn make() -> (Self, u32) {
        let t = ledger::issue();
        (Self { tok: t, magic: t ^ MAGIC }, t)
    }
    fn val(&self) -> u32 {
        if std::ptr::from_ref(self) as usize % 64 != 0 {
            ledger::error("B component is not aligned to 64 bytes".into());
        }
        check_tok("B", self.tok, self.magic)
    }
}

impl Drop for B {
    fn drop(&mut self) {
        ledger::on_drop(self.tok);
    }
}

thread_local! {
    static NEXT_C: Cell<u32> = const { Cell::new(0) };
}

pub fn reset_values() {
    NEXT_C.set(0);
}

/// One byte, no destructor.
#[derive(Clone, Copy)]
pub struct C(u8);

impl Comp for C {
    const I: usize = 2;
    const NAME: &'static str = "C";
    fn make() -> (Self, u32) {
        let v = NEXT_C.get() % 251;
        NEXT_C.set(v + 1);
        (Self(v as u8), v)
    }
    fn val(&self) -> u32 {
        u32::from(self.0)
    }
}

/// Zero-sized, tracked by count.
pub struct D(());

impl Comp for D {
    const I: usize = 3;
    const NAME: &'static str = "D";
    fn make() -> (Self, u32) {
        ledger::issue_zst();
        (Self(()), 0)
    }
    fn val(&self) -> u32 {
        0
    }
}

impl Drop for D {
    fn drop(&mut self) {
        ledger::on_drop_zst();
    }
}

/// Number of component types in the universe.
pub const N: usize = 4;
pub const NAMES: [&str; N] = ["A", "B", "C", "D"];

pub fn mask_name(mask: u8) -> String {
    let v: Vec<&str> = (0..N).filter(|i| mask >> i & 1 == 1).map(|i| NAMES[i]).collect();
    match v.len() {
        0 => "()".into(),
        1 => format!("({},)", v[0]),
        _ => format!("({})", v.join(", ")),
    }
}
