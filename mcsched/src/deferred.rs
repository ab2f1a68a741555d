//! Deferred creation from several threads, under all schedules and weak memory behaviours.
use engine::runner::{Check, Ctx, Tier};
use crate::{account, read_path, show_path};
use sched::{Limits, Run};
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! err {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct A(u64);
#[derive(Clone, PartialEq, Eq, Debug)]
struct B(Box<u64>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create,
    CreateAB,
    Extend,
    DestroyOldest,
    DestroyNewest,
    Atomic,
    Maintain,
    /// Destroys, inserts into and removes from what is pending: nothing happens.
    Pending,
    Clear,
    Reset,
    /// Two more threads.
    Phase,
}

use Op::*;

const ALL: &[(Op, &str)] = &[
    (Create, "c"),
    (CreateAB, "cAB"),
    (Extend, "x"),
    (DestroyOldest, "d0"),
    (DestroyNewest, "d1"),
    (Atomic, "a"),
    (Maintain, "m"),
    (Pending, "p"),
    (Clear, "C"),
    (Reset, "R"),
    (Phase, "P"),
];

fn encode(ops: &[Op]) -> String {
    ops.iter().map(|o| ALL.iter().find(|x| x.0 == *o).unwrap().1).collect::<Vec<_>>().join(" ")
}

fn decode(s: &str) -> Vec<Op> {
    s.split_whitespace().filter_map(|t| ALL.iter().find(|x| x.1 == t).map(|x| x.0)).collect()
}

#[derive(Default, Clone)]
struct Model {
    live: Vec<Entity>,
    pending: BTreeSet<Entity>,
    issued: BTreeSet<Entity>,
    /// Indexes of destroyed entities that were not given out again.
    free: BTreeSet<u32>,
    /// Indexes that were given out.
    seen: BTreeSet<u32>,
    /// Whether a free index must be given out before a new one.
    reuse: bool,
}

impl Model {
    fn new(reuse: bool) -> Self {
        Self { reuse, ..Self::default() }
    }

    fn issue(&mut self, e: Entity) -> Result<(), String> {
        self.issue_all(&[e])
    }

    /// Takes down handles that were given out at the same time.
    fn issue_all(&mut self, all: &[Entity]) -> Result<(), String> {
        let new = all.iter().find(|e| !self.seen.contains(&e.index)).copied();
        for e in all {
            self.issue_one(*e)?;
            self.free.remove(&e.index);
            self.seen.insert(e.index);
        }
        match new {
            Some(e) if self.reuse && !self.free.is_empty() => {
                err!("{e:?} has an index that was never in use, while the indexes {:?} of destroyed entities wait to be used again", self.free)
            }
            _ => Ok(()),
        }
    }

    fn issue_one(&mut self, e: Entity) -> Result<(), String> {
        if !self.issued.insert(e) {
            err!("{e:?} was given out before");
        }
        if let Some(o) = self.live.iter().chain(&self.pending).find(|o| o.index == e.index) {
            err!("{e:?} was given out while {o:?} is in use");
        }
        Ok(())
    }
}

/// Which operations do something.
fn useful(m: &Model, op: Op) -> bool {
    match op {
        DestroyOldest => !m.live.is_empty(),
        DestroyNewest => m.live.len() > 1,
        Pending => !m.pending.is_empty(),
        Maintain => !m.pending.is_empty(),
        Clear | Reset => !m.issued.is_empty(),
        _ => true,
    }
}

struct S {
    w: World,
    m: Model,
}

impl S {
    fn new(reuse: bool) -> S {
        let mut l = GroupLayout::default();
        l.add_group::<(A, B)>();
        S { w: World::new(&l), m: Model::new(reuse) }
    }

    fn check(&self) -> Result<(), String> {
        let es = self.w.entities();
        let set: BTreeSet<Entity> = es.iter().copied().collect();
        if set.len() != es.len() {
            err!("entities() lists an entity twice: {es:?}");
        }
        let live: BTreeSet<Entity> = self.m.live.iter().copied().collect();
        if set != live {
            err!("entities() is {set:?} but should be {live:?}");
        }
        for e in &self.m.issued {
            if self.w.contains_entity(*e) != live.contains(e) {
                err!("contains_entity({e:?}) is {}", !live.contains(e));
            }
        }
        if self.w.is_empty() != live.is_empty() {
            err!("is_empty() is {}", self.w.is_empty());
        }
        Ok(())
    }

    fn apply(&mut self, op: Op, run: &mut Run) -> Result<bool, String> {
        match op {
            Create => {
                let e = self.w.create(());
                self.m.issue(e)?;
                self.m.live.push(e);
            }
            CreateAB => {
                let e = self.w.create((A(7), B(Box::new(8))));
                self.m.issue(e)?;
                self.m.live.push(e);
            }
            Extend => {
                let es = self.w.extend([(A(1),), (A(2),)]).to_vec();
                if es.len() != 2 {
                    err!("extend returned {es:?}");
                }
                for e in es {
                    self.m.issue(e)?;
                    self.m.live.push(e);
                }
            }
            DestroyOldest | DestroyNewest => {
                let i = if op == DestroyOldest { 0 } else { self.m.live.len().wrapping_sub(1) };
                if i < self.m.live.len() {
                    let e = self.m.live.remove(i);
                    if !self.w.destroy(e) {
                        err!("destroying the living {e:?} returned false");
                    }
                    self.m.free.insert(e.index);
                }
            }
            Atomic => {
                let e = self.w.create_atomic();
                self.m.issue(e)?;
                self.m.pending.insert(e);
            }
            Maintain => {
                self.w.maintain();
                self.m.live.extend(std::mem::take(&mut self.m.pending));
            }
            Pending => {
                for e in self.m.pending.clone() {
                    if self.w.insert(e, (A(1), B(Box::new(2)))) {
                        err!("inserting into the pending {e:?} returned true");
                    }
                    if self.w.remove::<(A, B)>(e) != (None, None) {
                        err!("the pending {e:?} has components");
                    }
                    self.w.delete::<(A,)>(e);
                    if self.w.destroy(e) {
                        err!("destroying the pending {e:?} returned true");
                    }
                }
            }
            Clear => {
                self.w.clear();
                self.m.live.clear();
                self.m.pending.clear();
            }
            Reset => {
                self.w.reset();
                self.m = Model::new(self.m.reuse);
            }
            Phase => return self.phase(run, &[1, 1]),
        }
        self.check().map_err(|e| format!("after {}: {e}", encode(&[op])))?;
        Ok(true)
    }

    /// `sizes[i]` creations on thread i. Returns whether it completed.
    fn phase(&mut self, run: &mut Run, sizes: &[usize]) -> Result<bool, String> {
        run.base(&self.w as *const World as usize, std::mem::size_of::<World>());
        let w = &self.w;
        let m = &self.m;
        let listed = w.entities().to_vec();
        let listed = &listed;
        let out: Vec<RefCell<Vec<Entity>>> = sizes.iter().map(|_| RefCell::default()).collect();
        let bodies: Vec<Box<dyn FnOnce() + '_>> = sizes
            .iter()
            .zip(&out)
            .map(|(n, out)| {
                Box::new(move || {
                    for _ in 0..*n {
                        let e = w.create_atomic();
                        sched::observe(&(e.index, e.version.0.get()));
                        if w.contains_entity(e) {
                            sched::fail(format!("{e:?} is alive before the next maintain"));
                        }
                        if w.entities() != &listed[..] {
                            sched::fail(format!("entities() changed to {:?} by a deferred creation", w.entities()));
                        }
                        if let Some(l) = m.live.iter().find(|l| !w.contains_entity(**l)) {
                            sched::fail(format!("{l:?} is not alive anymore during a deferred creation"));
                        }
                        out.borrow_mut().push(e);
                    }
                }) as Box<dyn FnOnce() + '_>
            })
            .collect();
        let Ok(panics) = run.threads(bodies) else { return Ok(false) };
        if panics.iter().any(|p| p.is_some()) {
            err!("a deferred creation panicked: {}", engine::runner::last_panic());
        }
        let all: Vec<Entity> = out.iter().flat_map(RefCell::take).collect();
        self.m.issue_all(&all).map_err(|e| format!("the threads were given {all:?}: {e}"))?;
        self.m.pending.extend(all);
        self.check().map_err(|e| format!("after the threads: {e}"))?;
        Ok(true)
    }

    /// The handles of the next creations are new as well.
    fn finish(&mut self, run: &mut Run) -> Result<(), String> {
        for op in [Maintain, Atomic, Create, Atomic, Maintain, Create, DestroyOldest, Atomic, Maintain] {
            self.apply(op, run)?;
        }
        Ok(())
    }
}

/// Where continuations of a final state are explored from.
type Owners = HashMap<(Vec<(usize, u64)>, Vec<Entity>), Vec<usize>>;

struct Config<'a> {
    prefix: &'a [Op],
    sizes: &'a [usize],
    depth: usize,
    suffixes: &'a [Op],
    reuse: bool,
}

fn execution(run: &mut Run, c: &Config, owners: &mut Option<Owners>) -> Result<(), String> {
    let mut s = std::mem::ManuallyDrop::new(Box::new(S::new(c.reuse)));
    for op in c.prefix {
        s.apply(*op, run)?;
    }
    if !s.phase(run, c.sizes)? {
        return Ok(());
    }
    let explore = match owners {
        None => true,
        Some(_) if run.repeats() => false,
        Some(o) => {
            let key = (run.memory(), s.m.pending.iter().copied().collect());
            let path = run.path();
            *o.entry(key).or_insert_with(|| path.clone()) == path
        }
    };
    if explore {
        for _ in 0..c.depth {
            let ops: Vec<Op> = c.suffixes.iter().copied().filter(|o| useful(&s.m, *o)).collect();
            let k = run.choose(ops.len() + 1);
            if k == 0 {
                break;
            }
            if !s.apply(ops[k - 1], run)? {
                return Ok(());
            }
        }
        s.finish(run)?;
    }
    drop(std::mem::ManuallyDrop::into_inner(s));
    Ok(())
}

/// All sequences without useless operations.
fn prefixes(depth: usize, ops: &[Op]) -> Vec<Vec<Op>> {
    // The model does not know the handles: any will do.
    fn go(at: &mut Vec<Op>, live: usize, pending: usize, depth: usize, ops: &[Op], out: &mut Vec<Vec<Op>>) {
        out.push(at.clone());
        if at.len() == depth {
            return;
        }
        for op in ops {
            let (l, p) = match op {
                Create | CreateAB => (live + 1, pending),
                Extend => (live + 2, pending),
                DestroyOldest if live > 0 => (live - 1, pending),
                DestroyNewest if live > 1 => (live - 1, pending),
                Atomic => (live, pending + 1),
                Maintain if pending > 0 => (live + pending, 0),
                Clear if live + pending > 0 => (0, 0),
                Reset if live + pending > 0 => (0, 0),
                _ => continue,
            };
            at.push(*op);
            go(at, l, p, depth, ops, out);
            at.pop();
        }
    }
    let mut out = Vec::new();
    go(&mut Vec::new(), 0, 0, depth, ops, &mut out);
    out
}

/// Worlds in which almost all indexes have been issued.
struct Limit {
    w: World,
    left: usize,
    unexpected: bool,
}

const LIMITS: usize = 2;

impl Limit {
    fn new(kind: usize) -> Limit {
        let mut w = World::default();
        let mut seen = BTreeSet::new();
        let old = [w.create(()), w.create(())];
        seen.extend(old);
        let mut unexpected = false;
        // All but two of the indexes.
        for i in 2..(1u64 << 32) - 2 {
            let e = w.create_atomic();
            unexpected |= u64::from(e.index) != i || e.version != old[0].version;
            if unexpected {
                break;
            }
        }
        let mut left = 2;
        if kind == 1 {
            for e in old {
                w.destroy(e);
            }
            left += 2;
        }
        Limit { w, left, unexpected }
    }

    fn execution(&self, run: &mut Run, sizes: &[usize]) -> Result<(), String> {
        run.base(&self.w as *const World as usize, std::mem::size_of::<World>());
        let w = &self.w;
        let out: Vec<RefCell<Vec<Option<Entity>>>> = sizes.iter().map(|_| RefCell::default()).collect();
        let bodies: Vec<Box<dyn FnOnce() + '_>> = sizes
            .iter()
            .zip(&out)
            .map(|(n, out)| {
                Box::new(move || {
                    for _ in 0..*n {
                        let e = catch_unwind(AssertUnwindSafe(|| w.create_atomic())).ok();
                        sched::observe(&e.map(|e| (e.index, e.version.0.get())));
                        out.borrow_mut().push(e);
                    }
                }) as Box<dyn FnOnce() + '_>
            })
            .collect();
        if run.threads(bodies).is_err() {
            run.restore();
            return Ok(());
        }
        run.restore();
        let mut all: Vec<Entity> = out.iter().flat_map(|o| o.borrow().iter().flatten().copied().collect::<Vec<_>>()).collect();
        let n = all.len();
        let asked: usize = sizes.iter().sum();
        if n != asked.min(self.left) {
            err!("{} entities could be created, the threads asked for {asked}, and got {all:?}", self.left);
        }
        all.sort_by_key(|e| (e.index, e.version));
        all.dedup();
        if all.len() != n {
            err!("the threads got {n} handles of which some are equal: {:?}", out);
        }
        for e in all {
            let fresh = e.index >= u32::MAX - 1 && e.version.0.get() == 1;
            let again = e.index < 2 && e.version.0.get() == 2 && self.left == 4;
            if !fresh && !again {
                err!("{e:?} was given out before");
            }
        }
        Ok(())
    }
}

/// Deferred creation from threads, with or without the rule that free indexes are used first.
pub struct Deferred {
    pub id: &'static str,
    pub reuse: bool,
}

struct Plan {
    depth: usize,
    prefix_ops: &'static [Op],
    sizes: &'static [&'static [usize]],
    weak: usize,
    suffix_depth: usize,
    suffixes: &'static [Op],
}

const SUFFIX: &[Op] = &[Create, CreateAB, Extend, DestroyOldest, DestroyNewest, Atomic, Maintain, Pending, Clear, Reset, Phase];

fn plans(tier: Tier, reuse: bool) -> Vec<Plan> {
    let ops: &[Op] = &[Create, DestroyOldest, DestroyNewest, Atomic, Maintain, Clear];
    let all: &[Op] = &[Create, CreateAB, Extend, DestroyOldest, DestroyNewest, Atomic, Maintain, Clear, Reset];
    match tier {
        Tier::Quick if reuse => vec![
            Plan { depth: 5, prefix_ops: all, sizes: &[&[1, 1]], weak: 1, suffix_depth: 1, suffixes: SUFFIX },
            Plan { depth: 5, prefix_ops: ops, sizes: &[&[2, 1], &[1, 1, 1]], weak: 1, suffix_depth: 0, suffixes: SUFFIX },
        ],
        Tier::Quick => vec![
            Plan { depth: 6, prefix_ops: ops, sizes: &[&[1, 1]], weak: 1, suffix_depth: 1, suffixes: SUFFIX },
            Plan { depth: 4, prefix_ops: all, sizes: &[&[1, 1], &[2, 1], &[1]], weak: 2, suffix_depth: 2, suffixes: SUFFIX },
            Plan { depth: 4, prefix_ops: ops, sizes: &[&[2, 2], &[1, 1, 1], &[3, 1]], weak: 1, suffix_depth: 1, suffixes: SUFFIX },
            Plan { depth: 3, prefix_ops: ops, sizes: &[&[2, 1, 1], &[3, 2], &[1, 1, 1, 1]], weak: 1, suffix_depth: 1, suffixes: SUFFIX },
        ],
        Tier::Thorough => vec![
            Plan { depth: 7, prefix_ops: ops, sizes: &[&[1, 1]], weak: 2, suffix_depth: 2, suffixes: SUFFIX },
            Plan { depth: 5, prefix_ops: all, sizes: &[&[1, 1], &[2, 1], &[1]], weak: 3, suffix_depth: 3, suffixes: SUFFIX },
            Plan { depth: 5, prefix_ops: ops, sizes: &[&[2, 2], &[1, 1, 1], &[3, 1]], weak: 2, suffix_depth: 2, suffixes: SUFFIX },
            Plan { depth: 4, prefix_ops: ops, sizes: &[&[2, 1, 1], &[3, 2], &[1, 1, 1, 1], &[2, 2, 2]], weak: 1, suffix_depth: 2, suffixes: SUFFIX },
            Plan { depth: 2, prefix_ops: ops, sizes: &[&[2, 2, 2], &[3, 3], &[4, 2]], weak: 2, suffix_depth: 1, suffixes: SUFFIX },
        ],
    }
}

fn show_sizes(s: &[usize]) -> String {
    s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+")
}

impl Deferred {
    fn limits(&self, ctx: &Ctx) {
        let sizes: &[&[usize]] = match ctx.tier {
            Tier::Quick => &[&[2, 2], &[3, 2], &[1, 1, 1], &[2, 2, 1]],
            Tier::Thorough => &[&[2, 2], &[3, 2], &[3, 3], &[1, 1, 1], &[2, 2, 1], &[1, 1, 1, 1], &[2, 2, 2], &[5]],
        };
        ctx.parallel(LIMITS, |kind| {
            ctx.begin(&format!("limit{kind}|1|1|"));
            let beat: &'static Ctx = unsafe { &*(ctx as *const Ctx) };
            sched::set_heartbeat(Some(Box::new(|| {
                beat.alive();
                !beat.stopped()
            })));
            let done = std::sync::atomic::AtomicBool::new(false);
            std::thread::scope(|s| {
                let (done, ctx2) = (&done, ctx);
                let _ = ctx2;
                let l = s.spawn(move || {
                    let l = Limit::new(kind);
                    done.store(true, std::sync::atomic::Ordering::SeqCst);
                    // Only atomics are shared with the other thread.
                    SendBox(Box::new(l))
                });
                while !done.load(std::sync::atomic::Ordering::SeqCst) && !l.is_finished() {
                    ctx.alive();
                    std::thread::sleep(std::time::Duration::from_millis(50));
                }
                let Ok(SendBox(l)) = l.join() else {
                    ctx.violation(&format!("limit{kind}|1|1|"), "creating all entities but a few panicked");
                    return;
                };
                if l.unexpected {
                    ctx.note("limit", "indexes are not issued in order, the limit was not explored");
                    return;
                }
                for sizes in sizes {
                    let o = sched::explore(Limits { weak: 1, ..Limits::default() }, |run| l.execution(run, sizes));
                    account(ctx, &o);
                    ctx.add("configurations", 1);
                    if !o.complete && o.violation.is_none() {
                        ctx.cap("executions at the limit were not explored");
                    }
                    if let Some((p, m)) = o.violation {
                        ctx.violation(&format!("limit{kind}|{}|1|{}", show_sizes(sizes), show_path(&p)), &m);
                    }
                    ctx.sample(format!("{} available indexes, threads create {}: {} executions", l.left, show_sizes(sizes), o.executions));
                }
            });
            sched::set_heartbeat(None);
            ctx.end();
        });
    }
}

struct SendBox(Box<Limit>);
unsafe impl Send for SendBox {}

impl Check for Deferred {
    fn id(&self) -> &'static str {
        self.id
    }

    fn level(&self) -> &'static str {
        "exploration"
    }

    fn explore(&self, ctx: &Ctx) {
        let mut cases: Vec<(Vec<Op>, &'static [usize], usize, usize, &'static [Op])> = Vec::new();
        for p in plans(ctx.tier, self.reuse) {
            for prefix in prefixes(p.depth, p.prefix_ops) {
                for sizes in p.sizes {
                    cases.push((prefix.clone(), sizes, p.weak, p.suffix_depth, p.suffixes));
                }
            }
        }
        // Longest first within what is alike, short histories first otherwise.
        cases.sort_by_key(|c| (c.0.len(), c.1.iter().sum::<usize>()));
        ctx.add("histories", cases.len() as u64);
        let beat: &'static Ctx = unsafe { &*(ctx as *const Ctx) };
        let stride = (cases.len() / 16).max(1);
        ctx.parallel(cases.len(), |i| {
            let (prefix, sizes, weak, depth, suffixes) = &cases[i];
            let c = Config { prefix, sizes, depth: *depth, suffixes, reuse: self.reuse };
            let case = format!("{}|{}|{weak},{depth}|", encode(prefix), show_sizes(sizes));
            ctx.begin(&case);
            sched::set_heartbeat(Some(Box::new(|| {
                beat.alive();
                !beat.stopped()
            })));
            let mut owners = Some(Owners::new());
            let o = sched::explore(Limits { weak: *weak, executions: 3_000_000, ..Limits::default() }, |run| {
                execution(run, &c, &mut owners)
            });
            account(ctx, &o);
            ctx.add("configurations", 1);
            ctx.add("distinct_nontrivial", o.states);
            if !o.complete && o.violation.is_none() {
                ctx.cap(&format!("{case} has executions that were not explored"));
            }
            if let Some((p, m)) = &o.violation {
                ctx.violation(&format!("{case}{}", show_path(p)), m);
            }
            if i % stride == 0 {
                ctx.sample(format!(
                    "after [{}], threads create {}: {} executions, {} states, {} different results",
                    encode(prefix),
                    show_sizes(sizes),
                    o.executions,
                    o.states,
                    owners.map_or(0, |o| o.len())
                ));
            }
            sched::set_heartbeat(None);
            ctx.end();
        });
        if !self.reuse && !ctx.stopped() {
            self.limits(ctx);
        }
        ctx.note("rule", "evaluations counts executed schedules; distinct_nontrivial counts the different states (observations of all threads and memory) in which the next thread was chosen. Every history of the given operations up to a bounded length, then 1 to 4 threads that create 1 to 3 entities each, under every schedule of their atomic operations, with a bounded number of stale reads and spurious failures, then every continuation up to a bounded length");
    }

    fn replay(&self, case: &str) -> Result<(), String> {
        let f: Vec<&str> = case.split('|').collect();
        let [history, sizes, bounds, path] = f[..] else { return Ok(()) };
        let sizes: Vec<usize> = sizes.split('+').filter_map(|x| x.parse().ok()).collect();
        let b: Vec<usize> = bounds.split(',').filter_map(|x| x.parse().ok()).collect();
        let path = read_path(path);
        let limits = Limits { weak: b.first().copied().unwrap_or(1), ..Limits::default() };
        if let Some(k) = history.strip_prefix("limit") {
            let l = Limit::new(k.parse().unwrap_or(0));
            return sched::replay(limits, &path, |run| l.execution(run, &sizes));
        }
        let prefix = decode(history);
        let c = Config { prefix: &prefix, sizes: &sizes, depth: b.get(1).copied().unwrap_or(1), suffixes: SUFFIX, reuse: self.reuse };
        if path.is_empty() {
            // A case that crashed.
            let o = sched::explore(limits, |run| execution(run, &c, &mut Some(Owners::new())));
            return o.violation.map_or(Ok(()), |v| Err(v.1));
        }
        sched::replay(limits, &path, |run| execution(run, &c, &mut None))
    }

    fn assumptions(&self) -> Vec<String> {
        vec![
            "the source in /repo is compiled with `core::sync::atomic` replaced by atomics under the control of the scheduler; nothing else is replaced".into(),
            "memory model: release/acquire/relaxed with stale reads by loads and by failing weak compare-exchanges; stores to one location are ordered as executed".into(),
        ]
    }
}
