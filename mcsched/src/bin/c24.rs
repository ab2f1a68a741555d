//! Histories that repeat: indexes of destroyed entities are used again before new ones, and neither
//! indexes nor memory grow with the length of the history.

use engine::alloc;
use engine::runner::{last_panic, Check, Ctx, Tier};
use engine::ledger;
use mcsched::deferred::Deferred;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};
use std::collections::{HashSet, VecDeque};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

macro_rules! err {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

fn begin_run() {
    ledger::reset();
    alloc::flush_quarantine();
    alloc::take_error();
    alloc::reset_balance();
}

#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;

/// Threads that create entities at the same time.
const THREADS: Deferred = Deferred { id: "C24", reuse: true };

struct P(u64);
struct Q(u8);
struct R(Box<u32>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create(u8),
    Extend(u8, u8),
    /// Inserts all components into the oldest entity.
    Insert,
    /// Removes a component from the newest entity.
    Remove(u8),
    /// Destroys the oldest entity.
    Oldest,
    /// Destroys the newest entity.
    Newest,
    /// Destroys an entity that no longer exists, if there is one.
    Stale,
    Atomic,
    Maintain,
    /// Borrows and queries everything.
    Look,
    Layout(u8),
    Register,
    Clear,
    Reset,
}

const OPS: &[Op] = &[
    Op::Create(0),
    Op::Create(7),
    Op::Extend(3, 3),
    Op::Insert,
    Op::Remove(1),
    Op::Oldest,
    Op::Newest,
    Op::Atomic,
    Op::Maintain,
    Op::Clear,
    // Only in the shorter bodies.
    Op::Create(5),
    Op::Extend(7, 40),
    Op::Extend(0, 2),
    Op::Remove(6),
    Op::Stale,
    Op::Look,
    Op::Layout(1),
    Op::Layout(2),
    Op::Register,
    Op::Reset,
];
const CORE: usize = 10;

/// How a round gets back to where it began.
const CLOSE: [&str; 3] = ["destroy the oldest entities", "destroy the newest entities", "reset"];

fn layout(k: u8) -> GroupLayout {
    let (p, q, r) = (ComponentData::new::<P>(), ComponentData::new::<Q>(), ComponentData::new::<R>());
    let mut l = GroupLayout::default();
    match k {
        1 => l.add_group_dyn(&[p, q]),
        2 => {
            l.add_group_dyn(&[p, q]);
            l.add_group_dyn(&[p, q, r]);
        }
        _ => {}
    }
    l
}

struct Run {
    w: World,
    live: VecDeque<Entity>,
    pending: Vec<Entity>,
    stale: Option<Entity>,
    /// Whether an index was given out since the last reset.
    seen: Vec<bool>,
    /// Whether it belongs to a destroyed entity, and how many do.
    free: Vec<bool>,
    free_count: usize,
}

impl Run {
    fn new(l: u8, population: usize) -> Result<Self, String> {
        let lay = layout(l);
        let w = alloc::tagged(|| {
            let mut w = World::new(&lay);
            w.register::<P>();
            w.register::<Q>();
            w.register::<R>();
            w
        });
        let mut r = Self {
            w,
            live: VecDeque::new(),
            pending: Vec::new(),
            stale: None,
            seen: Vec::new(),
            free: Vec::new(),
            free_count: 0,
        };
        r.fill(population)?;
        Ok(r)
    }

    fn fill(&mut self, population: usize) -> Result<(), String> {
        for i in self.live.len()..population {
            self.apply(Op::Create([7, 3, 0, 5][i % 4]))?;
        }
        Ok(())
    }

    fn issued(&mut self, e: Entity) -> Result<(), String> {
        let i = e.index as usize;
        if i >= self.seen.len() {
            if i > self.seen.len() + 100_000 {
                err!("{e:?}: the index is far beyond the {} that were ever in use", self.seen.len());
            }
            self.seen.resize(i + 1, false);
            self.free.resize(i + 1, false);
        }
        if !self.seen[i] && self.free_count > 0 {
            err!(
                "{e:?} has an index that was never in use, while the indexes of {} destroyed entities wait to be used again",
                self.free_count
            );
        }
        self.seen[i] = true;
        if std::mem::take(&mut self.free[i]) {
            self.free_count -= 1;
        }
        Ok(())
    }

    fn destroy(&mut self, e: Entity) -> Result<(), String> {
        if !alloc::tagged(|| self.w.destroy(e)) {
            err!("destroy({e:?}) found no entity");
        }
        self.stale = Some(e);
        let i = e.index as usize;
        if !std::mem::replace(&mut self.free[i], true) {
            self.free_count += 1;
        }
        Ok(())
    }

    /// Whether the operation could be executed.
    fn apply(&mut self, op: Op) -> Result<bool, String> {
        let w = &mut self.w;
        match op {
            Op::Create(m) => {
                let e = alloc::tagged(|| match m {
                    0 => w.create(()),
                    3 => w.create((P(1), Q(2))),
                    5 => w.create((P(1), R(Box::new(3)))),
                    _ => w.create((P(1), Q(2), R(Box::new(3)))),
                });
                self.live.push_back(e);
                self.issued(e)?;
            }
            Op::Extend(m, n) => {
                let n = n as usize;
                let new: Vec<Entity> = {
                    let s = alloc::tagged(|| match m {
                        0 => w.extend((0..n).map(|_| ())),
                        3 => w.extend((0..n).map(|_| (P(1), Q(2)))),
                        _ => w.extend((0..n).map(|_| (P(1), Q(2), R(Box::new(3))))),
                    });
                    s.to_vec()
                };
                if new.len() != n {
                    err!("extend returned {} entities for {n} rows", new.len());
                }
                for e in new {
                    self.live.push_back(e);
                    self.issued(e)?;
                }
            }
            Op::Insert => {
                let Some(e) = self.live.front() else { return Ok(false) };
                alloc::tagged(|| w.insert(*e, (P(1), Q(2), R(Box::new(3)))));
            }
            Op::Remove(m) => {
                let Some(e) = self.live.back() else { return Ok(false) };
                alloc::tagged(|| match m {
                    1 => drop(w.remove::<(P,)>(*e)),
                    _ => w.delete::<(Q, R)>(*e),
                });
            }
            Op::Oldest => {
                let Some(e) = self.live.pop_front() else { return Ok(false) };
                self.destroy(e)?;
            }
            Op::Newest => {
                let Some(e) = self.live.pop_back() else { return Ok(false) };
                self.destroy(e)?;
            }
            Op::Stale => {
                let Some(e) = self.stale else { return Ok(false) };
                alloc::tagged(|| {
                    w.destroy(e);
                    w.insert(e, (P(1), Q(2), R(Box::new(3))));
                    w.delete::<(P, Q, R)>(e);
                });
            }
            Op::Atomic => {
                let e = alloc::tagged(|| w.create_atomic());
                self.pending.push(e);
                self.issued(e)?;
            }
            Op::Maintain => {
                alloc::tagged(|| w.maintain());
                self.live.extend(self.pending.drain(..));
            }
            Op::Look => alloc::tagged(|| {
                let mut n = 0;
                for v in [0, 1] {
                    n += w.query_all::<(&P, &Q)>().iter().count() + w.query_all::<(Entity, &R)>().include::<&P>().iter().count();
                    n += w.borrow::<P>().len() + w.borrow_mut::<R>().len() + v;
                }
                w.query_all::<&mut R>().for_each(|r| *r.0 += 1);
                w.query_all::<(&mut P, &mut Q)>().for_each(|(p, q)| {
                    p.0 += n as u64;
                    q.0 = q.0.wrapping_add(1);
                });
            }),
            Op::Layout(k) => {
                let l = layout(k);
                alloc::tagged(|| w.set_layout(&l));
            }
            Op::Register => {
                alloc::tagged(|| w.register::<P>() | w.register::<R>());
            }
            Op::Clear => {
                // The handles of the entities that were there are given up for good, until a reset.
                alloc::tagged(|| w.clear());
                self.live.clear();
                self.pending.clear();
            }
            Op::Reset => {
                alloc::tagged(|| w.reset());
                self.live.clear();
                self.pending.clear();
                self.stale = None;
                self.seen.clear();
                self.free.clear();
                self.free_count = 0;
            }
        }
        Ok(true)
    }

    /// The handles of the world, and what became of the indexes.
    fn key(&self) -> u64 {
        let mut h = DefaultHasher::new();
        (&self.live, &self.pending, &self.seen, &self.free).hash(&mut h);
        h.finish()
    }

    fn close(&mut self, how: usize, population: usize) -> Result<(), String> {
        if how == 2 {
            self.apply(Op::Reset)?;
        } else {
            self.apply(Op::Maintain)?;
            while self.live.len() > population {
                self.apply([Op::Oldest, Op::Newest][how])?;
            }
        }
        self.fill(population)?;
        if self.w.entities().len() != population {
            err!("the world holds {} entities instead of {population}", self.w.entities().len());
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
struct Case<'a> {
    layout: u8,
    population: usize,
    close: usize,
    rounds: usize,
    body: &'a [Op],
}

impl Case<'_> {
    fn encode(&self) -> String {
        let b: Vec<String> =
            self.body.iter().map(|o| OPS.iter().position(|p| p == o).unwrap_or(0).to_string()).collect();
        format!("{}.{}.{}.{}.{}", self.layout, self.population, self.close, self.rounds, b.join("-"))
    }

    /// Returns the number of operations, or nothing if some operation never applies.
    fn run(&self, states: &mut HashSet<u64>) -> Result<Option<u64>, String> {
        match catch_unwind(AssertUnwindSafe(|| self.rounds(states))) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", last_panic())),
        }
    }

    fn rounds(&self, states: &mut HashSet<u64>) -> Result<Option<u64>, String> {
        begin_run();
        let mut x = Run::new(self.layout, self.population)?;
        let mut steps = 0;
        // Memory in use at the end of the rounds of the second quarter, and of the second half.
        let mut used = [(0, 0); 2];
        let grows = self.close != 2 && self.body.contains(&Op::Clear);
        for round in 1..=self.rounds {
            for op in self.body {
                if !x.apply(*op).map_err(|m| format!("round {round}, {op:?}: {m}"))? && round == 1 {
                    return Ok(None);
                }
                steps += 1;
                if round <= 2 {
                    states.insert(x.key());
                }
            }
            x.close(self.close, self.population).map_err(|m| format!("end of round {round}: {m}"))?;
            if let Some(e) = alloc::take_error() {
                err!("round {round}: {e:?}");
            }
            let (blocks, bytes) = alloc::balance();
            let half = usize::from(round > self.rounds / 2);
            if round > self.rounds / 4 {
                used[half] = (used[half].0.max(blocks), used[half].1.max(bytes));
            }
        }
        if !grows && (used[1].0 > used[0].0 || used[1].1 > used[0].1) {
            err!(
                "memory grows with the number of rounds: at most {} bytes in {} blocks after up to {} rounds, {} bytes in {} blocks after {}",
                used[0].1, used[0].0, self.rounds / 2, used[1].1, used[1].0, self.rounds
            );
        }
        if used[1].1 == 0 {
            panic!("the memory of a world is not accounted for");
        }
        let Run { w, .. } = x;
        alloc::tagged(|| drop(w));
        Ok(Some(steps))
    }
}

struct C24;

fn explore(ctx: &Ctx, depth: usize, ops: usize, populations: &[usize], long: usize, rounds: usize) {
    // The first two operations of a body make an item.
    let mut items = Vec::new();
    for layout in 0..3 {
        for p in populations {
            for close in 0..CLOSE.len() {
                for a in 0..ops {
                    for b in if depth < 2 { ops } else { 0 }..=ops {
                        items.push((layout, *p, close, a, b));
                    }
                }
            }
        }
    }
    let all = Mutex::new(HashSet::new());
    ctx.parallel(items.len(), |i| {
        let mut states = HashSet::new();
        let (layout, population, close, a, b) = items[i];
        let mut body = vec![OPS[a]];
        if b < ops {
            body.push(OPS[b]);
        }
        let (mut cases, mut steps) = (0, 0);
        let tails = if b < ops { depth - 2 } else { 0 };
        for n in 0..=tails {
            let mut at = vec![0; n];
            loop {
                body.truncate(1 + usize::from(b < ops));
                body.extend(at.iter().map(|k| OPS[*k]));
                let rounds = if body.len() <= 2 { long } else { rounds };
                let case = Case { layout, population, close, rounds, body: &body };
                let text = case.encode();
                ctx.begin(&text);
                match case.run(&mut states) {
                    Ok(Some(n)) => {
                        cases += 1;
                        steps += n;
                        if cases == 40 && i % 200 == 0 {
                            ctx.sample(format!("{text}: {}", self::explain(&case)));
                        }
                    }
                    Ok(None) => {}
                    Err(m) => ctx.violation(&text, &m),
                }
                ctx.end();
                if ctx.stopped() {
                    return;
                }
                let mut k = 0;
                while k < n && at[k] + 1 == ops {
                    at[k] = 0;
                    k += 1;
                }
                if k == n {
                    break;
                }
                at[k] += 1;
            }
        }
        all.lock().unwrap().extend(states);
        ctx.add("traces_validated_against_impl", cases);
        ctx.add("transitions", steps);
    });
    let states = all.into_inner().unwrap().len();
    ctx.add("states", states as u64);
    ctx.note(
        "configurations",
        &format!(
            "bodies of up to {depth} of {ops} operations, {populations:?} entities, 3 layouts, 3 ways to close; {rounds} rounds, {long} of bodies of up to 2 operations"
        ),
    );
}

fn explain(c: &Case) -> String {
    format!(
        "layout #{}, {} entities; {} rounds of {:?}, each followed by: {}",
        c.layout, c.population, c.rounds, c.body, CLOSE[c.close]
    )
}

fn parse(case: &str, body: &mut Vec<Op>) -> (u8, usize, usize, usize) {
    let f: Vec<&str> = case.trim().split('.').collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    *body = f.get(4).map_or("", |s| s).split('-').filter_map(|s| s.parse::<usize>().ok()).map(|i| OPS[i]).collect();
    (n(0) as u8, n(1), n(2), n(3))
}

impl Check for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        ctx.note("states_rule", "counted by handles and indexes, over the first two rounds");
        let thorough = ctx.tier == Tier::Thorough;
        explore(ctx, 3, OPS.len(), &[0, 2, 21], 600, 128);
        explore(ctx, if thorough { 5 } else { 4 }, CORE, &[0, 3], 600, 128);
        if thorough {
            explore(ctx, 3, OPS.len(), &[1, 5, 130], 70_000, 256);
        } else {
            explore(ctx, 1, OPS.len(), &[0, 2], 70_000, 128);
        }
        if !ctx.stopped() {
            THREADS.explore(ctx);
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        if case.contains('|') {
            return THREADS.replay(case);
        }
        let mut body = Vec::new();
        let (layout, population, close, rounds) = parse(case, &mut body);
        Case { layout, population, close, rounds, body: &body }.run(&mut HashSet::new()).map(|_| ())
    }
    fn explain(&self, case: &str) -> String {
        if case.contains('|') {
            return THREADS.explain(case);
        }
        let mut body = Vec::new();
        let (layout, population, close, rounds) = parse(case, &mut body);
        explain(&Case { layout, population, close, rounds, body: &body })
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = vec!["bodies of the repeated histories, populations and rounds are bounded as listed".into()];
        v.extend(THREADS.assumptions());
        v
    }
}

fn main() {
    engine::runner::main(&C24)
}
