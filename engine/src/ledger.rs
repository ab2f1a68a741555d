//! Per-thread record of which component values exist, to detect values that are dropped twice,
//! leaked, duplicated or visible after having been dropped, and to inject destructor panics.

use std::cell::{Cell, RefCell};

#[derive(Default)]
struct Ledger {
    state: Vec<u8>, // 0: never created, 1: live, 2: dropped
    zst_made: i64,
    zst_dropped: i64,
    errors: Vec<String>,
    /// Values in the order in which they were dropped, if anyone asked for it.
    log: Option<Vec<u32>>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static FAULT_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

/// Payload of an injected destructor panic.
pub struct InjectedPanic;

pub fn reset() {
    LEDGER.with_borrow_mut(|l| {
        l.state.clear();
        l.zst_made = 0;
        l.zst_dropped = 0;
        l.errors.clear();
        l.log = None;
    });
    DROPS.set(0);
    FAULT_AT.set(u64::MAX);
    FIRED.set(false);
}

/// Issues a new value token.
pub fn issue() -> u32 {
    crate::alloc::untagged(|| {
        LEDGER.with_borrow_mut(|l| {
            l.state.push(1);
            (l.state.len() - 1) as u32
        })
    })
}

pub fn issue_zst() {
    LEDGER.with_borrow_mut(|l| l.zst_made += 1);
}

pub fn on_drop(tok: u32) {
    crate::alloc::untagged(|| {
        LEDGER.with_borrow_mut(|l| {
            match l.state.get_mut(tok as usize) {
                Some(s @ 1) => *s = 2,
                Some(_) => l.errors.push(format!("value #{tok} dropped a second time")),
                None => l.errors.push(format!("drop of a value that was never created (#{tok})")),
            }
            if let Some(log) = &mut l.log {
                log.push(tok);
            }
        });
    });
    tick();
}

pub fn on_drop_zst() {
    crate::alloc::untagged(|| {
        LEDGER.with_borrow_mut(|l| {
            l.zst_dropped += 1;
            if l.zst_dropped > l.zst_made {
                l.errors.push("zero-sized value dropped a second time".into());
            }
            if let Some(log) = &mut l.log {
                log.push(u32::MAX);
            }
        });
    });
    tick();
}

pub fn error(e: String) {
    crate::alloc::untagged(|| LEDGER.with_borrow_mut(|l| l.errors.push(e)));
}

fn tick() {
    let n = DROPS.get();
    DROPS.set(n + 1);
    if n == FAULT_AT.get() && !std::thread::panicking() {
        FIRED.set(true);
        crate::alloc::untagged(|| std::panic::resume_unwind(Box::new(InjectedPanic)));
    }
}

/// Number of destructor calls since the last reset or arming.
pub fn drops() -> u64 {
    DROPS.get()
}

/// Makes the `n`-th destructor call from now on (counting from 0) panic.
pub fn arm(n: u64) {
    DROPS.set(0);
    FIRED.set(false);
    FAULT_AT.set(n);
}

/// Disarms the fault; returns whether it fired.
pub fn disarm() -> bool {
    FAULT_AT.set(u64::MAX);
    FIRED.replace(false)
}

/// How many values were issued.
pub fn count() -> u32 {
    LEDGER.with_borrow(|l| l.state.len() as u32)
}

/// The values that were dropped since the last call, or since the first call, from which on they are
/// recorded. Zero-sized ones are `u32::MAX`.
pub fn take_log() -> Vec<u32> {
    crate::alloc::untagged(|| LEDGER.with_borrow_mut(|l| l.log.replace(Vec::new()).unwrap_or_default()))
}

pub fn is_live(tok: u32) -> bool {
    LEDGER.with_borrow(|l| l.state.get(tok as usize) == Some(&1))
}

pub fn live_zst() -> i64 {
    LEDGER.with_borrow(|l| l.zst_made - l.zst_dropped)
}

pub fn live_count() -> usize {
    LEDGER.with_borrow(|l| l.state.iter().filter(|s| **s == 1).count())
}

pub fn live_tokens() -> Vec<u32> {
    LEDGER.with_borrow(|l| (0..l.state.len() as u32).filter(|&t| l.state[t as usize] == 1).collect())
}

pub fn take_error() -> Option<String> {
    LEDGER.with_borrow_mut(|l| if l.errors.is_empty() { None } else { Some(l.errors.swap_remove(0)) })
}
