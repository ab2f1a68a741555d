//! Allocations of 256 MB and more are backed by a single chunk of memory, mapped over and over. Two
//! addresses of such an allocation share their contents exactly if they are equal modulo the size of
//! the chunk. This is sound for the arrays indexed by entity index, when the indexes in use differ
//! modulo CHUNK / 8 and everything else is filled with equal values.

use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::null_mut;
use std::sync::Mutex;

pub const CHUNK: usize = 16 << 20;
const HUGE: usize = 256 << 20;
const MAX: usize = 16;

#[derive(Clone, Copy)]
struct Region {
    base: usize,
    mapped: usize,
}

static REGIONS: Mutex<[Option<Region>; MAX]> = Mutex::new([None; MAX]);

pub struct Aliasing;

unsafe fn map(size: usize) -> *mut u8 {
    let mapped = (size + CHUNK - 1) / CHUNK * CHUNK;
    let Ok(mut regions) = REGIONS.lock() else { return null_mut() };
    let Some(slot) = regions.iter_mut().find(|r| r.is_none()) else { return null_mut() };
    let fd = libc::memfd_create(c"alias".as_ptr(), 0);
    if fd < 0 {
        return null_mut();
    }
    if libc::ftruncate(fd, CHUNK as i64) != 0 {
        libc::close(fd);
        return null_mut();
    }
    let base = libc::mmap(null_mut(), mapped, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if base == libc::MAP_FAILED {
        libc::close(fd);
        return null_mut();
    }
    let base = base as usize;
    let mut o = 0;
    while o < mapped {
        let p = libc::mmap(
            (base + o) as *mut _,
            CHUNK,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_FIXED | libc::MAP_POPULATE,
            fd,
            0,
        );
        if p == libc::MAP_FAILED {
            libc::munmap(base as *mut _, mapped);
            libc::close(fd);
            return null_mut();
        }
        o += CHUNK;
    }
    libc::close(fd);
    *slot = Some(Region { base, mapped });
    base as *mut u8
}

unsafe impl GlobalAlloc for Aliasing {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() >= HUGE {
            return map(layout.size());
        }
        System.alloc(layout)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if layout.size() >= HUGE {
            if let Ok(mut regions) = REGIONS.lock() {
                for r in regions.iter_mut() {
                    if let Some(x) = *r {
                        if x.base == p as usize {
                            libc::munmap(p.cast(), x.mapped);
                            *r = None;
                        }
                    }
                }
            }
            return;
        }
        System.dealloc(p, layout);
    }
}

/// Number of aliased allocations.
pub fn regions() -> usize {
    REGIONS.lock().map_or(0, |r| r.iter().flatten().count())
}

/// Contents of all aliased allocations.
pub struct Snapshot(Vec<(usize, Vec<u8>)>);

pub fn snapshot() -> Snapshot {
    let regions = *REGIONS.lock().unwrap();
    Snapshot(
        regions
            .iter()
            .flatten()
            .map(|r| (r.base, unsafe { std::slice::from_raw_parts(r.base as *const u8, CHUNK) }.to_vec()))
            .collect(),
    )
}

impl Snapshot {
    pub fn restore(&self) {
        for (base, bytes) in &self.0 {
            unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), *base as *mut u8, CHUNK) };
        }
    }
}
