//! Checking global allocator: layout-checked deallocation, red zones, poisoning and a quarantine for
//! the blocks allocated on behalf of the code under test, and a per-thread balance of those blocks.
//!
//! Errors are recorded (never panics, never allocates) and read with [`take_error`].

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const LIVE: u64 = 0x6c69_7665_a110_c8ed;
const FREED: u64 = 0x6465_6164_a110_c8ed;
const CANARY: u8 = 0xC7;
const UNINIT: u8 = 0xA5;
const POISON: u8 = 0xDB;
const TAIL: usize = 32;
const HDR: usize = 48;
const QUARANTINE: usize = 96;

#[repr(C)]
struct Header {
    size: u64,
    align: u64,
    tag: u64,
    offset: u64,
    serial: u64,
    magic: u64, // Adjacent to the user block.
}

pub struct Checking;

#[derive(Clone, Copy, Debug)]
pub struct AllocError {
    pub what: &'static str,
    pub a: usize,
    pub b: usize,
}

struct Quarantine {
    blocks: UnsafeCell<[usize; QUARANTINE]>,
    next: Cell<usize>,
}

thread_local! {
    static TAG: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static ERROR: Cell<Option<AllocError>> = const { Cell::new(None) };
    static SCAN: UnsafeCell<Option<Vec<(usize, usize)>>> = const { UnsafeCell::new(None) };
    static QUAR: Quarantine = const {
        Quarantine { blocks: UnsafeCell::new([0; QUARANTINE]), next: Cell::new(0) }
    };
}

/// Runs `f` with allocations attributed to the code under test.
pub fn tagged<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            TAG.set(self.0);
        }
    }
    let _r = Restore(TAG.replace(true));
    f()
}

/// Runs `f` with allocations not attributed to the code under test.
pub fn untagged<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            TAG.set(self.0);
        }
    }
    let _r = Restore(TAG.replace(false));
    f()
}

/// (live blocks, live bytes) of the code under test on this thread.
pub fn balance() -> (i64, i64) {
    (BLOCKS.get(), BYTES.get())
}

/// Number of tagged allocations ever made on this thread.
pub fn tagged_allocs() -> u64 {
    ALLOCS.get()
}

pub fn reset_balance() {
    BLOCKS.set(0);
    BYTES.set(0);
}

pub fn take_error() -> Option<AllocError> {
    ERROR.take()
}

fn error(what: &'static str, a: usize, b: usize) {
    let _ = ERROR.try_with(|e| {
        if e.get().is_none() {
            e.set(Some(AllocError { what, a, b }));
        }
    });
}

/// Starts or stops recording the address ranges of tagged live blocks on this thread.
pub fn record_blocks(on: bool) {
    untagged(|| SCAN.with(|s| unsafe { *s.get() = if on { Some(Vec::new()) } else { None } }));
}

/// Live tagged blocks (address, size) recorded since `record_blocks(true)`.
pub fn recorded_blocks() -> Vec<(usize, usize)> {
    untagged(|| SCAN.with(|s| unsafe { (*s.get()).as_ref().map_or_else(Vec::new, Clone::clone) }))
}

fn scan_add(p: usize, n: usize) {
    let _ = SCAN.try_with(|s| unsafe {
        if (*s.get()).is_some() {
            TAG.set(false);
            (*s.get()).as_mut().unwrap().push((p, n));
            TAG.set(true);
        }
    });
}

fn scan_del(p: usize) {
    let _ = SCAN.try_with(|s| unsafe {
        if let Some(v) = (*s.get()).as_mut() {
            v.retain(|x| x.0 != p);
        }
    });
}

fn real_layout(size: usize, align: usize) -> (usize, Layout) {
    let align = align.max(16);
    let offset = (HDR + align - 1) / align * align;
    (offset, unsafe { Layout::from_size_align_unchecked(offset + size + TAIL, align) })
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > isize::MAX as usize / 4 {
            return std::ptr::null_mut();
        }
        let (offset, real) = real_layout(layout.size(), layout.align());
        let base = System.alloc(real);
        if base.is_null() {
            return base;
        }
        let user = base.add(offset);
        let tag = TAG.try_with(Cell::get).unwrap_or(false);
        let h = user.sub(HDR).cast::<Header>();
        h.write(Header {
            size: layout.size() as u64,
            align: layout.align() as u64,
            tag: u64::from(tag),
            offset: offset as u64,
            serial: 0,
            magic: LIVE,
        });
        if tag {
            user.write_bytes(UNINIT, layout.size());
            user.add(layout.size()).write_bytes(CANARY, TAIL);
            BLOCKS.set(BLOCKS.get() + 1);
            BYTES.set(BYTES.get() + layout.size() as i64);
            ALLOCS.set(ALLOCS.get() + 1);
            scan_add(user as usize, layout.size());
        }
        user
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = self.alloc(layout);
        if !p.is_null() {
            p.write_bytes(0, layout.size());
        }
        p
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let h = user.sub(HDR).cast::<Header>();
        let magic = (*h).magic;
        if magic == FREED {
            error("double free", user as usize, layout.size());
            return;
        }
        if magic != LIVE {
            error("free of a block that was never allocated or whose header was overwritten", user as usize, layout.size());
            return;
        }
        let (size, align) = ((*h).size as usize, (*h).align as usize);
        if size != layout.size() {
            error("freed with a size different from the allocated one", size, layout.size());
        }
        if align != layout.align() {
            error("freed with an alignment different from the allocated one", align, layout.align());
        }
        let offset = (*h).offset as usize;
        let (_, real) = real_layout(size, align);
        if (*h).tag != 0 {
            for i in 0..TAIL {
                if *user.add(size + i) != CANARY {
                    error("write past the end of a block", size, i);
                    break;
                }
            }
            BLOCKS.set(BLOCKS.get() - 1);
            BYTES.set(BYTES.get() - size as i64);
            scan_del(user as usize);
            user.write_bytes(POISON, size);
            (*h).magic = FREED;
            let old = QUAR.try_with(|q| {
                let i = q.next.get();
                q.next.set((i + 1) % QUARANTINE);
                std::mem::replace(&mut (*q.blocks.get())[i], user as usize)
            });
            match old {
                Ok(0) => {}
                Ok(old) => release(old as *mut u8),
                Err(_) => System.dealloc(user.sub(offset), real),
            }
        } else {
            (*h).magic = FREED;
            if size <= 4096 {
                user.write_bytes(POISON, size);
            }
            System.dealloc(user.sub(offset), real);
        }
    }
}

unsafe fn release(user: *mut u8) {
    let h = user.sub(HDR).cast::<Header>();
    let (size, align, offset) = ((*h).size as usize, (*h).align as usize, (*h).offset as usize);
    if (*h).magic != FREED {
        error("header of a freed block was overwritten", user as usize, size);
        return;
    }
    check_poison(user, size);
    (*h).magic = 0;
    let (_, real) = real_layout(size, align);
    System.dealloc(user.sub(offset), real);
}

unsafe fn check_poison(user: *mut u8, size: usize) {
    for i in 0..size {
        if *user.add(i) != POISON {
            error("write to a freed block", size, i);
            break;
        }
    }
}

/// Checks the blocks in quarantine for writes after free, and empties it.
pub fn flush_quarantine() {
    QUAR.with(|q| unsafe {
        for slot in &mut *q.blocks.get() {
            let p = std::mem::replace(slot, 0);
            if p != 0 {
                release(p as *mut u8);
            }
        }
    });
}
