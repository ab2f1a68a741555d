//! Controlled scheduler: runs cooperative threads on the current OS thread under a schedule chosen
//! by an explorer, and gives atomics the weak memory semantics of release/acquire/relaxed accesses.
//!
//! Every access to a shadow atomic is a scheduling point. The explorer enumerates, depth first, all
//! choices of the next thread and of the value that a load (or a failing weak compare-exchange) may
//! read. Executions that reach a visited state (same observations of all threads, same memory) are
//! not branched further.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

pub type Panic = Box<dyn Any + Send>;

/// What a thread is guaranteed to have seen: per location the oldest store it can still read, and
/// per thread how many of its events happened before.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct View {
    loc: BTreeMap<usize, usize>,
    clock: BTreeMap<usize, u32>,
}

impl View {
    fn join(&mut self, o: &View) {
        for (k, v) in &o.loc {
            let e = self.loc.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
        for (k, v) in &o.clock {
            let e = self.clock.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
    }
}

#[derive(Clone, Hash)]
struct Store {
    value: u64,
    /// What an acquiring reader of this store learns.
    message: View,
}

struct Loc {
    stores: Vec<Store>,
    restore: Box<dyn Fn(u64)>,
}

#[derive(Default)]
struct CellState {
    write: Option<(usize, u32)>,
    reads: BTreeMap<usize, u32>,
}

type Co = Coroutine<(), (), (), DefaultStack>;

#[derive(Default)]
struct Thread {
    co: Option<Co>,
    yielder: usize,
    view: View,
    pending: View,
    fence: View,
    observed: DefaultHasher2,
    done: bool,
    yielded: bool,
    waits_for: Option<usize>,
    payload: Option<Panic>,
}

/// 128 bits, because states are identified by their hash.
#[derive(Clone)]
struct DefaultHasher2(DefaultHasher, DefaultHasher);

impl Default for DefaultHasher2 {
    fn default() -> Self {
        let mut b = DefaultHasher::new();
        b.write_u64(0x5bd1_e995_9e37_79b9);
        DefaultHasher2(DefaultHasher::new(), b)
    }
}

impl DefaultHasher2 {
    fn add(&mut self, x: &impl Hash) {
        x.hash(&mut self.0);
        x.hash(&mut self.1);
    }

    fn value(&self) -> (u64, u64) {
        (self.0.finish(), self.1.finish())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    /// How often a relaxed access may read a stale value or fail spuriously, per execution.
    pub weak: usize,
    /// Steps after which the schedule is fair, without stale reads and spurious failures. A
    /// program that does not end within as many steps then does not terminate.
    pub steps: usize,
    /// Whether visited states are recognised.
    pub prune: bool,
    /// Executions after which the exploration is given up (and `complete` is false).
    pub executions: u64,
}

impl Default for Limits {
    fn default() -> Self {
        Limits { weak: 2, steps: 2_000, prune: true, executions: u64::MAX }
    }
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    /// Executions with a fair end.
    pub fair: u64,
    pub max_steps: u64,
    pub max_threads: u64,
    pub complete: bool,
    /// Schedule and message.
    pub violation: Option<(Vec<usize>, String)>,
}

struct Exec {
    limits: Limits,
    // Choices: (chosen, alternatives).
    path: Vec<(usize, usize)>,
    at: usize,
    replaying: bool,
    free_run: bool,
    visited: HashSet<(u64, u64)>,
    // The current execution.
    threads: Vec<Thread>,
    current: usize,
    mem: BTreeMap<usize, Loc>,
    cells: BTreeMap<usize, CellState>,
    weak_used: usize,
    steps: usize,
    transitions: u64,
    truncated: bool,
    fair: bool,
    max_steps: usize,
    started: bool,
    max_threads: u64,
    error: Option<String>,
    base: (usize, usize),
    context: DefaultHasher2,
    extra: (u64, u64),
    stacks: Vec<DefaultStack>,
}

thread_local! {
    static EXEC: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static BEAT: RefCell<Option<Box<dyn Fn() -> bool>>> = const { RefCell::new(None) };
}

/// Called now and then during an exploration on this OS thread, which ends when `f` returns false.
pub fn set_heartbeat(f: Option<Box<dyn Fn() -> bool>>) {
    BEAT.with(|b| *b.borrow_mut() = f);
}

fn exec<'a>() -> Option<&'a mut Exec> {
    unsafe { EXEC.get().as_mut() }
}

/// Whether the caller runs in a scheduled thread.
#[inline]
pub fn active() -> bool {
    ACTIVE.get()
}

impl Exec {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 || self.fair {
            return 0;
        }
        if self.at < self.path.len() {
            let c = self.path[self.at].0;
            self.at += 1;
            return c.min(n - 1);
        }
        if self.free_run || self.replaying {
            return 0;
        }
        self.path.push((0, n));
        self.at += 1;
        0
    }

    fn key(&self, addr: usize) -> usize {
        if addr >= self.base.0 && addr < self.base.1 {
            addr - self.base.0
        } else {
            addr
        }
    }

    fn state(&self) -> (u64, u64) {
        let mut h = self.context.clone();
        h.add(&self.weak_used);
        h.add(&self.extra);
        h.add(&self.threads.len());
        for t in &self.threads {
            h.add(&t.observed.value());
            h.add(&(t.done, t.yielded, t.waits_for));
            if !t.done {
                h.add(&(&t.view, &t.pending, &t.fence));
            }
        }
        for (k, l) in &self.mem {
            h.add(k);
            h.add(&l.stores);
        }
        for (k, c) in &self.cells {
            h.add(&(k, c.write, &c.reads));
        }
        h.value()
    }

    fn loc(&mut self, key: usize, real: u64, restore: impl FnOnce() -> Box<dyn Fn(u64)>) -> &mut Loc {
        self.mem.entry(key).or_insert_with(|| Loc {
            stores: vec![Store { value: real, message: View::default() }],
            restore: restore(),
        })
    }

    fn tick(&mut self) -> u32 {
        let c = self.current;
        let e = self.threads[c].view.clock.entry(c).or_insert(0);
        *e += 1;
        *e
    }

    fn observe(&mut self, x: &impl Hash) {
        let c = self.current;
        self.threads[c].observed.add(x);
    }

    fn learn(&mut self, message: View, order: Ordering) {
        let c = self.current;
        let t = &mut self.threads[c];
        if matches!(order, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
            t.view.join(&message);
        } else {
            t.pending.join(&message);
        }
    }

    fn push_store(&mut self, key: usize, value: u64, order: Ordering, sequence: Option<View>) {
        let c = self.current;
        let l = self.mem.get_mut(&key).unwrap();
        let index = l.stores.len();
        let t = &mut self.threads[c];
        t.view.loc.insert(key, index);
        let mut message = if matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
            t.view.clone()
        } else {
            t.fence.clone()
        };
        message.loc.insert(key, index);
        if let Some(s) = sequence {
            // A read-modify-write continues the release sequence of what it read.
            message.join(&s);
        }
        l.stores.push(Store { value, message });
    }

    /// Indexes of the stores that the current thread may read, the latest first.
    fn readable(&self, key: usize) -> std::ops::Range<usize> {
        let l = &self.mem[&key];
        self.threads[self.current].view.loc.get(&key).copied().unwrap_or(0)..l.stores.len()
    }

    fn read(&mut self, key: usize, index: usize, order: Ordering) -> u64 {
        let s = self.mem[&key].stores[index].clone();
        let c = self.current;
        let e = self.threads[c].view.loc.entry(key).or_insert(0);
        *e = (*e).max(index);
        self.learn(s.message, order);
        s.value
    }
}

fn suspend() {
    let e = exec().unwrap();
    let y = e.threads[e.current].yielder as *const Yielder<(), ()>;
    ACTIVE.set(false);
    unsafe { (*y).suspend(()) };
    ACTIVE.set(true);
}

/// A scheduling point without a memory access.
pub fn point() {
    if active() {
        suspend();
        let e = exec().unwrap();
        e.observe(&0u8);
    }
}

/// As `core::hint::spin_loop`: lets others run first.
pub fn spin() {
    if active() {
        let e = exec().unwrap();
        e.threads[e.current].yielded = true;
        suspend();
        exec().unwrap().observe(&1u8);
    }
}

/// A nondeterministic choice of the environment.
pub fn choose(n: usize) -> usize {
    match exec() {
        None => 0,
        Some(e) => {
            let c = e.choose(n);
            if active() {
                e.observe(&(2u8, c));
            } else {
                e.context.add(&c);
            }
            c
        }
    }
}

/// Makes what a thread found out by other means part of the state.
pub fn observe(x: &impl Hash) {
    if active() {
        exec().unwrap().observe(x);
    }
}

/// Replaces the state of the harness, which is a part of the state.
pub fn set_extra(x: &impl Hash) {
    if let Some(e) = exec() {
        let mut h = DefaultHasher2::default();
        h.add(x);
        e.extra = h.value();
    }
}

/// Reports a violation from within a scheduled thread.
pub fn fail(message: String) {
    if let Some(e) = exec() {
        if e.error.is_none() {
            e.error = Some(message);
        }
    }
}

pub struct Access<'a> {
    pub addr: usize,
    pub real: u64,
    pub restore: &'a dyn Fn() -> Box<dyn Fn(u64)>,
}

pub fn load(a: Access<'_>, order: Ordering) -> u64 {
    suspend();
    let e = exec().unwrap();
    let key = e.key(a.addr);
    e.loc(key, a.real, a.restore);
    let r = e.readable(key);
    let stale = order != Ordering::SeqCst && e.weak_used < e.limits.weak;
    let n = if stale { r.len() } else { 1 };
    let c = e.choose(n);
    if c > 0 {
        e.weak_used += 1;
    }
    let v = e.read(key, r.end - 1 - c, order);
    e.tick();
    e.observe(&(3u8, key, v));
    v
}

pub fn store(a: Access<'_>, value: u64, order: Ordering) {
    suspend();
    let e = exec().unwrap();
    let key = e.key(a.addr);
    e.loc(key, a.real, a.restore);
    e.tick();
    e.push_store(key, value, order, None);
    e.observe(&(4u8, key, value));
}

/// Reads the latest value and replaces it with the result of `f`.
pub fn rmw(a: Access<'_>, order: Ordering, f: &mut dyn FnMut(u64) -> u64) -> (u64, u64) {
    suspend();
    let e = exec().unwrap();
    let key = e.key(a.addr);
    e.loc(key, a.real, a.restore);
    let last = e.mem[&key].stores.len() - 1;
    let sequence = e.mem[&key].stores[last].message.clone();
    let old = e.read(key, last, order);
    e.tick();
    let new = f(old);
    e.push_store(key, new, order, Some(sequence));
    e.observe(&(5u8, key, old, new));
    (old, new)
}

/// `Ok(old)`: replaced by `new`. `Err(read)`: failed.
pub fn compare_exchange(
    a: Access<'_>,
    expected: u64,
    new: u64,
    success: Ordering,
    failure: Ordering,
    weak: bool,
) -> Result<u64, u64> {
    suspend();
    let e = exec().unwrap();
    let key = e.key(a.addr);
    e.loc(key, a.real, a.restore);
    let r = e.readable(key);
    let last = r.end - 1;
    let equal = e.mem[&key].stores[last].value == expected;
    e.tick();
    // Choice 0: what happens to the latest value. Others: a weak one fails having read any
    // readable value.
    let extra = weak && e.weak_used < e.limits.weak;
    let alternatives: Vec<usize> = if extra { r.rev().filter(|i| equal || *i != last).collect() } else { Vec::new() };
    let c = e.choose(1 + alternatives.len());
    let out = if c == 0 && equal {
        let sequence = e.mem[&key].stores[last].message.clone();
        let old = e.read(key, last, success);
        e.push_store(key, new, success, Some(sequence));
        Ok(old)
    } else if c == 0 {
        Err(e.read(key, last, failure))
    } else {
        e.weak_used += 1;
        Err(e.read(key, alternatives[c - 1], failure))
    };
    e.observe(&(6u8, key, out));
    out
}

pub fn fence(order: Ordering) {
    if !active() {
        return;
    }
    suspend();
    let e = exec().unwrap();
    let c = e.current;
    let t = &mut e.threads[c];
    if matches!(order, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
        let p = t.pending.clone();
        t.view.join(&p);
    }
    if matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
        t.fence = t.view.clone();
    }
    e.observe(&7u8);
}

fn race(id: usize, kind: &str, with: &str, t: usize) -> String {
    format!("data race: a {kind} of component value #{id} is not ordered after the {with} of it by thread {t}")
}

/// A read of memory that is not atomic.
pub fn cell_read(id: usize) {
    if !active() {
        return;
    }
    let e = exec().unwrap();
    let time = e.tick();
    let cur = e.current;
    let clock = e.threads[cur].view.clock.clone();
    let c = e.cells.entry(id).or_default();
    if let Some((t, k)) = c.write {
        if t != cur && clock.get(&t).copied().unwrap_or(0) < k {
            let m = race(id, "read", "write", t);
            e.error.get_or_insert(m);
            return;
        }
    }
    c.reads.insert(cur, time);
}

/// A write of memory that is not atomic.
pub fn cell_write(id: usize) {
    if !active() {
        return;
    }
    let e = exec().unwrap();
    let time = e.tick();
    let cur = e.current;
    let clock = e.threads[cur].view.clock.clone();
    let c = e.cells.entry(id).or_default();
    let before = |t: usize, k: u32| t == cur || clock.get(&t).copied().unwrap_or(0) >= k;
    let m = match c.write {
        Some((t, k)) if !before(t, k) => Some(race(id, "write", "write", t)),
        _ => c.reads.iter().find(|(t, k)| !before(**t, **k)).map(|(t, _)| race(id, "write", "read", *t)),
    };
    c.write = Some((cur, time));
    c.reads.clear();
    if let Some(m) = m {
        e.error.get_or_insert(m);
    }
}

/// Index of the current thread.
pub fn thread() -> usize {
    exec().map_or(0, |e| e.current)
}

/// Starts a thread. `f` may borrow from the caller, which must wait for it with `join`.
///
/// # Safety
/// The caller joins the thread before anything that `f` borrows ends.
pub unsafe fn spawn<'a>(f: Box<dyn FnOnce() + 'a>) -> usize {
    let f: Box<dyn FnOnce() + 'static> = std::mem::transmute(f);
    let e = exec().expect("no exploration");
    let id = e.threads.len();
    let mut t = Thread::default();
    if let Some(parent) = e.threads.get_mut(e.current).filter(|_| active()) {
        t.view = parent.view.clone();
        parent.observed.add(&(8u8, id));
    }
    let stack = e.stacks.pop().unwrap_or_else(|| DefaultStack::new(512 << 10).unwrap());
    t.co = Some(Co::with_stack_unchecked(stack, move |y: &Yielder<(), ()>, ()| {
        let e = exec().unwrap();
        e.threads[id].yielder = y as *const _ as usize;
        let r = catch_unwind(AssertUnwindSafe(f));
        let e = exec().unwrap();
        if let Err(p) = r {
            e.threads[id].payload = Some(p);
        }
        e.threads[id].done = true;
    }));
    e.threads.push(t);
    e.max_threads = e.max_threads.max(e.threads.len() as u64);
    id
}

/// Waits for a thread started by this one.
pub fn join(id: usize) -> Result<(), Panic> {
    assert!(active());
    let e = exec().unwrap();
    if !e.threads[id].done {
        let c = e.current;
        e.threads[c].waits_for = Some(id);
        suspend();
    }
    let e = exec().unwrap();
    let v = e.threads[id].view.clone();
    let c = e.current;
    e.threads[c].view.join(&v);
    e.observe(&(9u8, id));
    match e.threads[id].payload.take() {
        None => Ok(()),
        Some(p) => Err(p),
    }
}

/// Why `run` did not complete.
pub struct Truncated;

/// One execution, as seen by the harness.
pub struct Run(());

impl Run {
    pub fn choose(&mut self, n: usize) -> usize {
        choose(n)
    }

    /// Addresses in this range are identified by their offset, so that states are recognised in
    /// later executions.
    pub fn base(&mut self, addr: usize, len: usize) {
        exec().unwrap().base = (addr, addr + len);
    }

    /// Whether the execution only repeats what was seen before.
    pub fn repeats(&self) -> bool {
        exec().unwrap().free_run
    }

    /// The choices made so far in this execution.
    pub fn path(&self) -> Vec<usize> {
        let e = exec().unwrap();
        e.path[..e.at.min(e.path.len())].iter().map(|x| x.0).collect()
    }

    /// The latest values of all atomics that the threads accessed.
    pub fn memory(&self) -> Vec<(usize, u64)> {
        exec().unwrap().mem.iter().map(|(k, l)| (*k, l.stores.last().unwrap().value)).collect()
    }

    /// Makes what the harness did part of the state.
    pub fn context(&mut self, x: &impl Hash) {
        exec().unwrap().context.add(x);
    }

    /// Runs the threads under all schedules.
    ///
    /// If they do not terminate, nothing that the threads borrow may be used or freed.
    pub fn threads<'a>(&mut self, bodies: Vec<Box<dyn FnOnce() + 'a>>) -> Result<Vec<Option<Panic>>, Truncated> {
        let e = exec().unwrap();
        if e.started {
            // What happened earlier in this execution.
            let s = e.state();
            e.context.add(&s);
        }
        e.threads.clear();
        e.mem.clear();
        e.cells.clear();
        e.steps = 0;
        e.started = true;
        e.current = 0;
        for b in bodies {
            unsafe { spawn(b) };
        }
        loop {
            let e = exec().unwrap();
            let can = |e: &Exec, t: &Thread| !t.done && t.waits_for.is_none_or(|w| e.threads[w].done);
            let mut ready: Vec<usize> =
                (0..e.threads.len()).filter(|i| can(e, &e.threads[*i]) && !e.threads[*i].yielded).collect();
            if ready.is_empty() {
                for t in &mut e.threads {
                    t.yielded = false;
                }
                ready = (0..e.threads.len()).filter(|i| can(e, &e.threads[*i])).collect();
            }
            if ready.is_empty() {
                break;
            }
            if e.limits.prune && !e.fair && ready.len() > 1 && e.at >= e.path.len() && !e.free_run && !e.replaying {
                let s = e.state();
                if !e.visited.insert(s) {
                    e.free_run = true;
                }
            }
            e.steps += 1;
            e.transitions += 1;
            e.max_steps = e.max_steps.max(e.steps);
            if e.steps > e.limits.steps {
                // Only the threads that are to run are chosen now, each in turn.
                e.fair = true;
                let after = ready.iter().position(|i| *i > e.current).unwrap_or(0);
                ready.rotate_left(after);
                if e.steps > 2 * e.limits.steps {
                    e.truncated = true;
                    break;
                }
            } else if let Some(p) = ready.iter().position(|i| *i == e.current) {
                ready[..=p].rotate_right(1);
            }
            let next = ready[e.choose(ready.len())];
            e.current = next;
            for (i, t) in e.threads.iter_mut().enumerate() {
                if i != next {
                    // The others can make progress after this step.
                    t.yielded = false;
                }
            }
            e.threads[next].waits_for = None;
            e.threads[next].observed.add(&10u8);
            let mut co = e.threads[next].co.take().unwrap();
            ACTIVE.set(true);
            let r = co.resume(());
            ACTIVE.set(false);
            let e = exec().unwrap();
            match r {
                CoroutineResult::Yield(()) => e.threads[next].co = Some(co),
                CoroutineResult::Return(()) => e.stacks.push(co.into_stack()),
            }
        }
        let e = exec().unwrap();
        if e.truncated {
            for t in &mut e.threads {
                if let Some(mut co) = t.co.take() {
                    // Its values are leaked.
                    unsafe { co.force_reset() };
                    e.stacks.push(co.into_stack());
                }
            }
            return Err(Truncated);
        }
        Ok(e.threads.iter_mut().map(|t| t.payload.take()).collect())
    }

    /// Gives all atomics that the threads accessed the values that they had before.
    pub fn restore(&mut self) {
        for l in exec().unwrap().mem.values() {
            (l.restore)(l.stores[0].value);
        }
    }
}

fn one(e: &mut Exec, f: &mut dyn FnMut(&mut Run) -> Result<(), String>) -> Result<(), String> {
    e.at = 0;
    e.free_run = false;
    e.weak_used = 0;
    e.steps = 0;
    e.truncated = false;
    e.fair = false;
    e.started = false;
    e.error = None;
    e.base = (0, 0);
    e.context = DefaultHasher2::default();
    e.extra = (0, 0);
    EXEC.set(e);
    ACTIVE.set(false);
    let r = f(&mut Run(()));
    EXEC.set(std::ptr::null_mut());
    match e.error.take() {
        _ if e.truncated => Err("the threads do not terminate".into()),
        Some(m) => Err(m),
        None => r,
    }
}

fn new_exec(limits: Limits) -> Box<Exec> {
    Box::new(Exec {
        limits,
        path: Vec::new(),
        at: 0,
        replaying: false,
        free_run: false,
        visited: HashSet::new(),
        threads: Vec::new(),
        current: 0,
        mem: BTreeMap::new(),
        cells: BTreeMap::new(),
        weak_used: 0,
        steps: 0,
        transitions: 0,
        truncated: false,
        fair: false,
        max_steps: 0,
        started: false,
        max_threads: 0,
        error: None,
        base: (0, 0),
        context: DefaultHasher2::default(),
        extra: (0, 0),
        stacks: Vec::new(),
    })
}

/// Explores all executions of `f`, which is called once for each.
pub fn explore(limits: Limits, mut f: impl FnMut(&mut Run) -> Result<(), String>) -> Outcome {
    let mut e = new_exec(limits);
    let mut out = Outcome::default();
    loop {
        if out.executions % 64 == 0 {
            if !BEAT.with(|b| b.borrow().as_ref().is_none_or(|f| f())) {
                break;
            }
        }
        let r = one(&mut e, &mut f);
        out.executions += 1;
        out.fair += u64::from(e.fair);
        if let Err(m) = r {
            out.violation = Some((e.path[..e.at.min(e.path.len())].iter().map(|x| x.0).collect(), m));
            break;
        }
        // Threads that wait for each other in loops have too many schedules.
        if out.executions >= limits.executions || out.fair >= 100 {
            break;
        }
        // The next path.
        while e.path.last().is_some_and(|x| x.0 + 1 >= x.1) {
            e.path.pop();
        }
        match e.path.last_mut() {
            None => {
                out.complete = true;
                break;
            }
            Some(x) => x.0 += 1,
        }
    }
    out.states = e.visited.len() as u64;
    out.transitions = e.transitions;
    out.max_threads = e.max_threads;
    out.max_steps = e.max_steps as u64;
    out
}

/// Executes `f` once under the given choices.
pub fn replay(limits: Limits, path: &[usize], mut f: impl FnMut(&mut Run) -> Result<(), String>) -> Result<(), String> {
    let mut e = new_exec(limits);
    e.replaying = true;
    e.path = path.iter().map(|c| (*c, usize::MAX)).collect();
    one(&mut e, &mut f)
}
