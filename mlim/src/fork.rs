//! Depth-first exploration of all continuations of a state that cannot be rebuilt cheaply: every
//! operation is executed in a forked copy of the process.

use std::sync::atomic::{AtomicU64, Ordering};

pub const COUNTERS: usize = 16;
const TEXT: usize = 4096;

/// Memory shared by all forks of one branch of the exploration.
#[repr(C)]
pub struct Shared {
    pub counters: [AtomicU64; COUNTERS],
    len: [AtomicU64; 2],
    text: [[u8; TEXT]; 2],
}

impl Shared {
    pub fn new() -> &'static Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &*p.cast()
        }
    }

    fn put(&self, i: usize, s: &str) {
        let n = s.len().min(TEXT);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.text[i].as_ptr().cast_mut(), n) };
        self.len[i].store(n as u64, Ordering::SeqCst);
    }

    fn read(&self, i: usize) -> String {
        let n = self.len[i].load(Ordering::SeqCst) as usize;
        String::from_utf8_lossy(&self.text[i][..n.min(TEXT)]).into_owned()
    }

    pub fn add(&self, c: usize, n: u64) {
        self.counters[c].fetch_add(n, Ordering::Relaxed);
    }

    pub fn get(&self, c: usize) -> u64 {
        self.counters[c].load(Ordering::Relaxed)
    }

    pub fn set_case(&self, s: &str) {
        self.put(0, s);
    }

    pub fn case(&self) -> String {
        self.read(0)
    }

    pub fn set_message(&self, s: &str) {
        self.put(1, s);
    }

    pub fn message(&self) -> String {
        self.read(1)
    }
}

/// Runs `f` in a forked process, and returns the process.
pub fn spawn(f: impl FnOnce() -> bool) -> i32 {
    unsafe {
        let p = libc::fork();
        assert!(p >= 0, "fork failed");
        if p == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(match ok {
                Ok(true) => 0,
                Ok(false) => 1,
                Err(_) => 2,
            });
        }
        p
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

fn end(st: i32) -> End {
    if libc::WIFEXITED(st) {
        End::Exit(libc::WEXITSTATUS(st))
    } else {
        End::Signal(libc::WTERMSIG(st))
    }
}

pub fn wait(p: i32) -> End {
    let mut st = 0;
    unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    end(st)
}

/// The end of the process, if it has ended.
pub fn poll(p: i32) -> Option<End> {
    let mut st = 0;
    (unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) } == p).then(|| end(st))
}

pub fn kill(p: i32) {
    unsafe { libc::kill(p, libc::SIGKILL) };
    wait(p);
}

/// Limits the time until the next call.
pub fn alarm(seconds: u32) {
    unsafe { libc::alarm(seconds) };
}
