//! A destructor panic at every destructor call of every operation in every state.

use engine::runner::{last_panic, Check, Ctx, Tier};
use engine::{alloc, ledger};
use mc::comps::*;
use mc::exec::{begin_run, Exec, Row};
use mc::lockstep::{applicable, continue_both, NEXT};
use mc::op::{encode, Op};
use mc::system::*;
use mc::{err, for_registered, observe};
use sparsey::Entity;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// An operation whose destructor calls may panic.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fop {
    Op(Op),
    DropWorld,
    /// Writes a component through an exclusive view.
    Assign(u8, u8),
    /// Sorts of replacement: writes through a query item.
    QueryAssign(u8, u8),
}

#[derive(Default)]
struct Stats {
    evaluations: AtomicU64,
    faults: AtomicU64,
    by_op: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
}

struct Obs {
    seen: UpToRenaming,
    stats: Stats,
    second: bool,
}

/// Reads everything there is; reading a dropped value is recorded as an error.
fn look(x: &Exec, handles: &[Entity]) -> Result<(), String> {
    for_registered!(x.m.registered, T => {
        let v = x.w.borrow::<T>();
        if v.entities().len() != v.as_slice().len() || v.len() != v.as_slice().len() {
            err!("the view of {} has lost its shape", T::NAME);
        }
        for c in v.as_slice() {
            c.val();
        }
        for e in handles.iter().chain(v.entities()) {
            if let Some(c) = v.get(*e) {
                c.val();
            }
        }
        drop(v);
        x.w.for_each::<&T>(|c| { c.val(); });
        x.w.for_each::<Option<&T>>(|c| { if let Some(c) = c { c.val(); } });
        for e in handles {
            if let Some(c) = x.w.query_one::<&T>().get(*e) { c.val(); }
        }
    });
    if x.m.registered & 3 == 3 {
        x.w.for_each::<(&A, &B)>(|(a, b)| {
            a.val();
            b.val();
        });
        if let Some((a, b)) = x.w.query_all::<(&A, &B)>().slice() {
            a.iter().for_each(|a| { a.val(); });
            b.iter().for_each(|b| { b.val(); });
        }
        let mut q = x.w.query_all::<&A>().exclude::<&B>();
        q.for_each(|a| { a.val(); });
        if let Some(a) = q.slice() {
            a.iter().for_each(|a| { a.val(); });
        }
    }
    if x.m.registered & 7 == 7 {
        x.w.for_each::<(&A, &B, &C)>(|(a, b, _)| {
            a.val();
            b.val();
        });
        let mut q = x.w.query_all::<(&A, &B)>().exclude::<&C>();
        if let Some((a, b)) = q.slice() {
            a.iter().for_each(|a| { a.val(); });
            b.iter().for_each(|b| { b.val(); });
        }
    }
    Exec::side_errors()
}

/// Takes over what the world shows, so that further operations have entities to work on.
fn resync(x: &mut Exec) {
    let es: Vec<Entity> = x.w.entities().to_vec();
    let mut ents: Vec<(Entity, Row)> = es.into_iter().map(|e| (e, [None; N])).collect();
    // Oldest first, as far as known.
    let age = |e: &Entity| x.m.issued.iter().position(|o| o == e).unwrap_or(usize::MAX);
    ents.sort_by_key(|r| age(&r.0));
    for_registered!(x.m.registered, T => {
        let v = x.w.borrow::<T>();
        for (e, r) in &mut ents {
            r[T::I] = v.get(*e).map(Comp::val);
        }
    });
    x.m.ents = ents;
}

fn assign<T: Comp>(x: &mut Exec, e: Entity, query: bool) {
    let (new, _) = T::make();
    let mut new = Some(new);
    if query {
        x.w.for_each::<(Entity, &mut T)>(|(o, t)| {
            if o == e {
                *t = new.take().unwrap();
            }
        });
    } else if let Some(t) = x.w.borrow_mut::<T>().get_mut(e) {
        *t = new.take().unwrap();
    }
}

/// Performs the operation with the `n`-th destructor call panicking. Returns whether it was reached.
fn faulty(x: &mut Exec, op: Fop, n: u64) -> Result<bool, String> {
    ledger::arm(n);
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Fop::Op(op) => {
            // What it returns is not compared: the model does not know how far it gets.
            let _ = x.apply(op);
        }
        Fop::Assign(s, c) | Fop::QueryAssign(s, c) => {
            let e = x.m.ents[s as usize].0;
            let q = matches!(op, Fop::QueryAssign(..));
            match c {
                1 => assign::<A>(x, e, q),
                _ => assign::<B>(x, e, q),
            }
        }
        Fop::DropWorld => {
            let w = std::mem::take(&mut x.w);
            alloc::tagged(|| drop(w));
        }
    }));
    let fired = ledger::disarm();
    if r.is_err() && !fired {
        err!("{op:?} panics: {}", last_panic());
    }
    Exec::side_errors().map_err(|m| format!("{op:?} with a panic in destructor call {n}: {m}"))?;
    Ok(fired)
}

struct Plan<'a> {
    cfg: &'a Cfg,
    history: &'a [Op],
    op: Fop,
    n: u64,
    /// A second operation, possibly with a panic of its own.
    follow: Option<(Op, Option<u64>)>,
    /// Continuation after clearing.
    next: &'a [Op],
}

impl Plan<'_> {
    /// Returns whether the panic happened, and that of the second operation, too.
    fn run(&self) -> Result<bool, String> {
        begin_run();
        let mut x = Exec::new(self.cfg.layout, self.cfg.registered);
        for op in self.history {
            x.apply(*op)?;
        }
        let handles = x.m.issued.clone();
        let reset = self.op == Fop::Op(Op::Reset);
        if !faulty(&mut x, self.op, self.n)? {
            return Ok(false);
        }
        let mut what = format!("{:?} with a panic in destructor call {}", self.op, self.n);
        if self.op == Fop::DropWorld {
            return Ok(true);
        }
        look(&x, &handles).map_err(|m| format!("after {what}: {m}"))?;
        if let Some((op, n)) = self.follow {
            resync(&mut x);
            if !applicable(&x, op) {
                return Ok(false);
            }
            match n {
                None => {
                    what = format!("{what} and {op:?}");
                    guarded(|| {
                        let _ = x.apply(op);
                        Ok(())
                    })
                    .map_err(|m| format!("after {what}: {m}"))?;
                }
                Some(n) => {
                    what = format!("{what} and {op:?} with a panic in destructor call {n}");
                    if !faulty(&mut x, Fop::Op(op), n)? {
                        return Ok(false);
                    }
                }
            }
            Exec::side_errors().map_err(|m| format!("after {what}: {m}"))?;
            look(&x, &handles).map_err(|m| format!("after {what}: {m}"))?;
            if op == Op::Reset {
                x.m.issued.clear();
            }
        }
        // Clearing makes it a correct empty world.
        x.m.dead = x.m.issued.to_vec();
        x.m.ents.clear();
        x.m.pending.clear();
        if reset {
            // It may or may not have got as far as forgetting the handles.
            x.m.issued.clear();
            x.m.dead.clear();
        }
        guarded(|| {
            alloc::tagged(|| x.w.clear());
            observe::basic(&x)?;
            let fresh = continue_both(&mut x, "clear", self.next)?;
            drop(fresh);
            let w = std::mem::take(&mut x.w);
            alloc::tagged(|| drop(w));
            Exec::side_errors()
        })
        .map_err(|m| format!("after {what} and a clear: {m}"))?;
        Ok(true)
    }
}

fn ops(cfg: &Cfg, h: &[Op]) -> Vec<Fop> {
    begin_run();
    let mut x = Exec::new(cfg.layout, cfg.registered);
    for op in h {
        let _ = x.apply(*op);
    }
    let reg = x.m.registered;
    let mut v: Vec<Fop> = Vec::new();
    for s in 0..x.m.ents.len() as u8 {
        v.push(Fop::Op(Op::Destroy(s)));
        for m in [1, 2, 3, 7, 8, 15] {
            if m & !reg == 0 {
                v.push(Fop::Op(Op::Delete(s, m)));
                v.push(Fop::Op(Op::Insert(s, m)));
                v.push(Fop::Op(Op::Remove(s, m)));
            }
        }
        for m in [1, 2] {
            if m & !reg == 0 {
                v.push(Fop::Assign(s, m));
                v.push(Fop::QueryAssign(s, m));
            }
        }
    }
    v.push(Fop::Op(Op::Clear));
    v.push(Fop::Op(Op::Reset));
    v.push(Fop::Op(Op::Layout(0)));
    v.push(Fop::Op(Op::Layout(6)));
    v.push(Fop::Op(Op::Maintain));
    v.push(Fop::DropWorld);
    v
}

const AFTER: &[Op] = &[
    Op::Create(7),
    Op::Create(0),
    Op::Extend(3, 2),
    Op::Insert(0, 7),
    Op::Insert(1, 3),
    Op::Remove(0, 7),
    Op::Remove(1, 1),
    Op::Delete(0, 3),
    Op::Delete(1, 2),
    Op::Destroy(0),
    Op::Destroy(1),
    Op::Maintain,
    Op::Reset,
    Op::Layout(0),
    Op::Layout(3),
];

impl Obs {
    fn plan(&self, p: &Plan) -> Result<bool, String> {
        self.stats.evaluations.fetch_add(1, Ordering::Relaxed);
        let r = p.run();
        if let Ok(true) = r {
            self.stats.faults.fetch_add(1, Ordering::Relaxed);
        }
        r
    }
}

impl Observer for Obs {
    fn transition(&self, _: &mut Exec, _: &[Op]) -> Result<(), String> {
        Ok(())
    }
    fn new_state(&self, _: &mut Exec, _: &[Op]) -> Result<(), String> {
        Ok(())
    }
    fn after(&self, cfg: &Cfg, h: &[Op]) -> Result<(), String> {
        begin_run();
        let mut x = Exec::new(cfg.layout, cfg.registered);
        for op in h {
            x.apply(*op)?;
        }
        let new = self.seen.is_new(&x);
        drop(x);
        for op in ops(cfg, h) {
            let mut n = 0;
            loop {
                let base = Plan { cfg, history: h, op, n, follow: None, next: &[] };
                if !self.plan(&base)? {
                    break;
                }
                if n == 0 {
                    let name = format!("{op:?}");
                    let name = name.split(['(', '{']).take(2).collect::<Vec<_>>().join(" ");
                    *self.stats.by_op.lock().unwrap().entry(name).or_default() += 1;
                }
                if new && op != Fop::DropWorld {
                    for next in NEXT {
                        self.plan(&Plan { next: std::slice::from_ref(next), ..base })?;
                    }
                    self.plan(&Plan { next: &[Op::Extend(7, 3), Op::Insert(0, 3), Op::Destroy(1)], ..base })?;
                    for f in AFTER {
                        self.plan(&Plan { follow: Some((*f, None)), next: &[Op::Create(7), Op::Create(3)], ..base })?;
                    }
                    if self.second || cfg.max_live == 2 {
                        for f in AFTER.iter().chain(&[Op::Clear]) {
                            let mut k = 0;
                            while self.plan(&Plan { follow: Some((*f, Some(k))), next: &[Op::Create(7)], ..base })? {
                                k += 1;
                            }
                        }
                    }
                }
                n += 1;
                if n > 10_000 {
                    err!("{op:?} runs destructors without end");
                }
            }
            let mut s = self.stats.samples.lock().unwrap();
            if n > 2 && s.len() < 12 && (h.len() > 3 || s.is_empty()) {
                s.push(format!("{} then {op:?}: a panic in each of its {n} destructor calls", encode(h)));
            }
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[0, 3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, three components",
            layout,
            registered: 0b0111,
            create: vec![0, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            atomic: thorough,
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    let layouts: &[u8] = if thorough { &[0, 3, 4, 5, 6, 14, 15, 16] } else { &[6] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, four components",
            layout,
            registered: 0b1111,
            create: vec![3, 15],
            extend: vec![(15, 2)],
            insert: vec![9],
            remove: vec![2, 5],
            destroy: thorough,
            max_live: 3,
            max_index: 3,
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "many entities",
        layout: 3,
        registered: 0b0111,
        extend: vec![(7, 3), (3, 2), (1, 4)],
        remove: vec![1],
        destroy: false,
        max_live: 9,
        max_index: 9,
        depth: if thorough { 5 } else { 3 },
        ..Cfg::default()
    });
    v
}

struct C09 {
    inner: BfsCheck<Obs>,
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn explore(&self, ctx: &Ctx) {
        self.inner.explore(ctx);
        let s = &self.inner.obs.stats;
        ctx.add("evaluations", s.evaluations.load(Ordering::Relaxed));
        ctx.add("distinct_nontrivial", s.faults.load(Ordering::Relaxed));
        ctx.note("rule", "a case is a reachable state, an operation, the number of the destructor call that panics, and what happens next (another operation, possibly with a second panic; a clear and a continuation); it counts as nontrivial if the destructor call was reached and panicked");
        for (k, n) in s.by_op.lock().unwrap().iter() {
            ctx.note("faulted_operations", &format!("{k}: {n} states"));
        }
        for t in s.samples.lock().unwrap().iter() {
            ctx.sample(t.clone());
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        self.inner.replay(case)
    }
    fn explain(&self, case: &str) -> String {
        self.inner.explain(case)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = self.inner.assumptions();
        v.push("a destructor that panics while another panic unwinds aborts the process in any program and is not explored".into());
        v
    }
}

fn main() {
    let second = std::env::args().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let obs = Obs { seen: UpToRenaming::default(), stats: Stats::default(), second };
    engine::runner::main(&C09 { inner: BfsCheck { id: "C09", cfgs, obs, assumptions: &[] } })
}
