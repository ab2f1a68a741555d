//! Level-synchronous parallel breadth-first search over histories.

use crate::runner::Ctx;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct IdHash(u64);

impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 = self.0.rotate_left(7) ^ u64::from_le_bytes(x);
        }
    }
    fn write_u128(&mut self, v: u128) {
        self.0 ^= v as u64 ^ (v >> 64) as u64;
    }
}

type Set = HashSet<u128, BuildHasherDefault<IdHash>>;

pub struct Visited(Vec<Mutex<Set>>);

impl Visited {
    pub fn new() -> Self {
        Self((0..512).map(|_| Mutex::default()).collect())
    }
    /// Returns whether the key is new.
    pub fn insert(&self, key: u128) -> bool {
        self.0[(key % 509) as usize].lock().unwrap().insert(key)
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

impl Default for Visited {
    fn default() -> Self {
        Self::new()
    }
}

/// The transition system of one configuration.
pub trait System: Sync {
    type Op: Copy + Send + Sync + Debug;

    /// Replays `history` on a fresh implementation, checking every step; the last step is checked in
    /// full. `is_new(key)` tells whether the reached state is new, and if so it is observed in full.
    /// Returns the key of the state.
    fn run(&self, history: &[Self::Op], is_new: &dyn Fn(u128) -> bool) -> Result<u128, String>;

    /// Operations to explore from the state reached by `history`.
    fn enabled(&self, history: &[Self::Op]) -> Result<Vec<Self::Op>, String>;

    /// Textual form of a case, parsed again by the replay of the check.
    fn encode(&self, history: &[Self::Op]) -> String;

    /// Human readable form of a history.
    fn show(&self, history: &[Self::Op]) -> String {
        format!("{history:?}")
    }
}

pub struct Bounds {
    pub depth: usize,
    pub states: usize,
}

/// Explores all histories within the bounds; returns (states, transitions, depth reached, complete).
pub fn explore<S: System>(ctx: &Ctx, sys: &S, bounds: &Bounds) -> (usize, u64, usize, bool) {
    let visited = Visited::new();
    let transitions = AtomicU64::new(0);
    let validated = AtomicU64::new(0);
    let mut frontier: Vec<(Box<[S::Op]>, u128)> = Vec::new();

    let case = sys.encode(&[]);
    ctx.begin(&case);
    match sys.run(&[], &|k| visited.insert(k)) {
        Ok(k) => frontier.push((Box::new([]), k)),
        Err(m) => ctx.violation(&case, &m),
    }
    ctx.end();

    let mut depth = 0;
    let mut complete = true;
    let mut last_sample = None;
    while !frontier.is_empty() && depth < bounds.depth && !ctx.stopped() {
        if visited.len() >= bounds.states {
            complete = false;
            break;
        }
        let out: Mutex<Vec<(Box<[S::Op]>, u128)>> = Mutex::new(Vec::new());
        let chunk = (frontier.len() / (ctx.workers * 8)).clamp(1, 64);
        let jobs = frontier.len().div_ceil(chunk);
        let stride = (frontier.len() / 64).max(1);
        ctx.parallel(jobs, |j| {
            let mut local = Vec::new();
            let mut n = 0;
            for (fi, (hist, key)) in frontier.iter().enumerate().skip(j * chunk).take(chunk) {
                if ctx.stopped() {
                    break;
                }
                let case = sys.encode(hist);
                ctx.begin(&case);
                if fi % stride == 0 {
                    // Replaying a stored history again must reach the same state.
                    match sys.run(hist, &|_| false) {
                        Ok(k) if k == *key => {
                            validated.fetch_add(1, Ordering::Relaxed);
                        }
                        // The key depends on more than the behaviour: only recorded.
                        Ok(_) => ctx.add("replays_reaching_another_key", 1),
                        Err(m) => ctx.violation(&case, &m),
                    }
                }
                let ops = match sys.enabled(hist) {
                    Ok(ops) => ops,
                    Err(m) => {
                        ctx.violation(&case, &m);
                        continue;
                    }
                };
                let mut h = Vec::with_capacity(hist.len() + 1);
                h.extend_from_slice(hist);
                for op in ops {
                    h.push(op);
                    let case = sys.encode(&h);
                    ctx.begin(&case);
                    n += 1;
                    let fresh = std::cell::Cell::new(false);
                    let r = sys.run(&h, &|k| {
                        let f = visited.insert(k);
                        fresh.set(f);
                        f
                    });
                    match r {
                        Ok(k) => {
                            if fresh.get() {
                                local.push((h.clone().into_boxed_slice(), k));
                            }
                        }
                        Err(m) => ctx.violation(&case, &m),
                    }
                    h.pop();
                    if ctx.stopped() {
                        break;
                    }
                }
            }
            transitions.fetch_add(n, Ordering::Relaxed);
            out.lock().unwrap().append(&mut local);
        });
        if ctx.stopped() {
            complete = false;
        }
        frontier = out.into_inner().unwrap();
        if let Some(f) = frontier.first() {
            last_sample = Some(sys.show(&f.0));
        }
        depth += 1;
    }
    if !frontier.is_empty() {
        complete = false;
    }
    if let Some(s) = last_sample {
        ctx.sample(s);
    }
    let states = visited.len();
    ctx.add("states", states as u64);
    ctx.add("transitions", transitions.load(Ordering::Relaxed));
    ctx.add("traces_validated_against_impl", validated.load(Ordering::Relaxed));
    (states, transitions.load(Ordering::Relaxed), depth, complete)
}
