//! The interface of `rayon-core`, on top of the controlled scheduler.
//!
//! `join_context` behaves as the real one: the second closure either is taken back by the thread
//! that offered it, after the first one, or is stolen and runs concurrently on another thread. Which
//! one, and how many threads there are, is chosen by the explorer.
#![allow(clippy::all)]
use std::cell::Cell;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    static THREADS: Cell<usize> = const { Cell::new(1) };
    /// How many more joins may be stolen.
    static STEALS: Cell<usize> = const { Cell::new(0) };
    static INJECTED: Cell<bool> = const { Cell::new(false) };
    static JOINS: Cell<u64> = const { Cell::new(0) };
    static STOLEN: Cell<u64> = const { Cell::new(0) };
}

/// Configures the stand-in for the following executions on this OS thread.
pub fn configure(threads: usize, steals: usize, injected: bool) {
    THREADS.set(threads);
    STEALS.set(steals);
    INJECTED.set(injected);
    JOINS.set(0);
    STOLEN.set(0);
}

/// Number of joins, and of those that were stolen, since `configure`.
pub fn counts() -> (u64, u64) {
    (JOINS.get(), STOLEN.get())
}

pub fn current_num_threads() -> usize {
    THREADS.get()
}

pub fn max_num_threads() -> usize {
    0xffff
}

pub fn current_thread_index() -> Option<usize> {
    if sched::active() {
        Some(sched::thread() % THREADS.get().max(1))
    } else {
        None
    }
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }

    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    JOINS.set(JOINS.get() + 1);
    // The first join of a caller from outside of the pool.
    let injected = INJECTED.replace(false);
    let stolen = STEALS.get() > 0 && sched::active() && sched::choose(2) == 1;
    if !stolen {
        let ra = match catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected)))) {
            Ok(r) => r,
            Err(p) => {
                // The real one waits for the second closure, which it then runs as any other job.
                let _ = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))));
                resume_unwind(p)
            }
        };
        return (ra, b(FnContext::new(injected)));
    }
    STEALS.set(STEALS.get() - 1);
    STOLEN.set(STOLEN.get() + 1);
    let mut rb = None;
    let id = unsafe { sched::spawn(Box::new(|| rb = Some(b(FnContext::new(true))))) };
    let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
    let done = sched::join(id);
    match (ra, done) {
        (Err(p), _) => resume_unwind(p),
        (_, Err(p)) => resume_unwind(p),
        (Ok(ra), Ok(())) => (ra, rb.unwrap()),
    }
}

pub struct Scope<'scope> {
    _marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
    spawned: std::sync::Mutex<Vec<usize>>,
}

impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        if sched::active() {
            let this = self as *const Self as usize;
            let id = unsafe { sched::spawn(Box::new(move || body(&*(this as *const Self)))) };
            self.spawned.lock().unwrap().push(id);
        } else {
            body(self);
        }
    }

    fn wait(&self) {
        let mut panic = None;
        loop {
            let id = match self.spawned.lock().unwrap().pop() {
                None => break,
                Some(id) => id,
            };
            if let Err(p) = sched::join(id) {
                panic = Some(p);
            }
        }
        if let Some(p) = panic {
            resume_unwind(p);
        }
    }
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { _marker: PhantomData, spawned: Default::default() };
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.wait();
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}

pub struct ScopeFifo<'scope> {
    base: Scope<'scope>,
}

impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let this = self as *const Self as usize;
        self.base.spawn(move |_| body(unsafe { &*(this as *const Self) }));
    }
}

pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { base: Scope { _marker: PhantomData, spawned: Default::default() } };
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.base.wait();
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}

pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f();
}

pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f();
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    sched::spin();
    Some(Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

pub struct BroadcastContext<'a> {
    index: usize,
    _marker: PhantomData<&'a ()>,
}

impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }

    pub fn num_threads(&self) -> usize {
        THREADS.get()
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..THREADS.get()).map(|index| op(BroadcastContext { index, _marker: PhantomData })).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());

impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no thread pools here")
    }
}

impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadBuilder(());

impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }

    pub fn name(&self) -> Option<&str> {
        None
    }

    pub fn stack_size(&self) -> Option<usize> {
        None
    }

    pub fn run(self) {}
}

#[derive(Debug)]
pub struct DefaultSpawn;

#[derive(Debug)]
pub struct ThreadPoolBuilder<S = DefaultSpawn>(PhantomData<S>);

impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder(PhantomData)
    }
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn num_threads(self, _n: usize) -> Self {
        self
    }

    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }

    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct ThreadPool(());

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }

    pub fn current_num_threads(&self) -> usize {
        THREADS.get()
    }
}

#[allow(dead_code)]
fn unused() -> io::Result<()> {
    Ok(())
}
