//! Running out of indexes and of versions.
//!
//! The limits are reached by the operations that a user would need: about 2^32 of them. What can
//! happen from there on is then explored exhaustively by forking the process for every operation.

use engine::runner::{last_panic, Check, Ctx, Tier};
use mlim::alias;
use mlim::fork::{self, End, Shared};
use sparsey::component::GroupLayout;
use sparsey::entity::{Entity, Version};
use sparsey::world::World;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! err {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

const INDEXES: u64 = 1 << 32;

thread_local! {
    static LIVE_VALUES: Cell<i64> = const { Cell::new(0) };
}

#[derive(Debug)]
struct A(Box<u64>);

impl A {
    fn new(v: u64) -> A {
        LIVE_VALUES.set(LIVE_VALUES.get() + 1);
        A(Box::new(v))
    }
}

impl Drop for A {
    fn drop(&mut self) {
        LIVE_VALUES.set(LIVE_VALUES.get() - 1);
        *self.0 = 0xdead;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct B(u32);

fn entity(i: u32, v: u32) -> Entity {
    Entity::new(i, Version(NonZeroU32::new(v).unwrap()))
}

fn raw(e: Entity) -> (u32, u32) {
    (e.index, e.version.0.get())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create,
    CreateA,
    CreateAB,
    Extend,
    ExtendAB,
    Atomic,
    Maintain,
    Destroy(usize),
    InsertA(usize),
    InsertB(usize),
    RemoveA(usize),
    /// Destroys and inserts through every handle that is not alive.
    Dead,
    Clear,
    Reset,
}

impl Op {
    fn encode(self) -> String {
        match self {
            Op::Create => "c".into(),
            Op::CreateA => "cA".into(),
            Op::CreateAB => "cAB".into(),
            Op::Extend => "x".into(),
            Op::ExtendAB => "xAB".into(),
            Op::Atomic => "a".into(),
            Op::Maintain => "m".into(),
            Op::Destroy(i) => format!("d{i}"),
            Op::InsertA(i) => format!("iA{i}"),
            Op::InsertB(i) => format!("iB{i}"),
            Op::RemoveA(i) => format!("rA{i}"),
            Op::Dead => "dead".into(),
            Op::Clear => "C".into(),
            Op::Reset => "R".into(),
        }
    }

    fn decode(s: &str) -> Option<Op> {
        let n = |p: &str| s.strip_prefix(p).and_then(|x| x.parse().ok());
        Some(match s {
            "c" => Op::Create,
            "cA" => Op::CreateA,
            "cAB" => Op::CreateAB,
            "x" => Op::Extend,
            "xAB" => Op::ExtendAB,
            "a" => Op::Atomic,
            "m" => Op::Maintain,
            "dead" => Op::Dead,
            "C" => Op::Clear,
            "R" => Op::Reset,
            _ => {
                return n("d")
                    .map(Op::Destroy)
                    .or_else(|| n("iA").map(Op::InsertA))
                    .or_else(|| n("iB").map(Op::InsertB))
                    .or_else(|| n("rA").map(Op::RemoveA))
            }
        })
    }

    fn show(self) -> String {
        match self {
            Op::Create => "create(())".into(),
            Op::CreateA => "create((A,))".into(),
            Op::CreateAB => "create((A, B))".into(),
            Op::Extend => "extend(2 x ())".into(),
            Op::ExtendAB => "extend(2 x (A, B))".into(),
            Op::Atomic => "create_atomic()".into(),
            Op::Maintain => "maintain()".into(),
            Op::Destroy(i) => format!("destroy(living entity #{i})"),
            Op::InsertA(i) => format!("insert(living entity #{i}, (A,))"),
            Op::InsertB(i) => format!("insert(living entity #{i}, (B,))"),
            Op::RemoveA(i) => format!("remove::<(A,)>(living entity #{i})"),
            Op::Dead => "destroy, insert and remove through every handle that is not alive".into(),
            Op::Clear => "clear()".into(),
            Op::Reset => "reset()".into(),
        }
    }
}

/// What must be true of the world, whatever the way in which it chooses handles.
#[derive(Default)]
struct Model {
    live: BTreeMap<(u32, u32), (Option<u64>, Option<u32>)>,
    pending: BTreeSet<(u32, u32)>,
    /// Handles that were alive or pending, and are no more.
    dead: BTreeSet<(u32, u32)>,
    /// Indexes that can be issued again.
    free: BTreeSet<u32>,
    /// The first version of all smaller indexes was issued.
    issued_below: u64,
    /// All smaller or equal versions of index 0 were issued.
    cycled: u32,
    issued: HashSet<(u32, u32)>,
    /// The indexes in this range are pending in their first version.
    bulk: (u64, u64),
}

impl Model {
    fn was_issued(&self, (i, v): (u32, u32)) -> bool {
        (v == 1 && u64::from(i) < self.issued_below) || (i == 0 && v <= self.cycled) || self.issued.contains(&(i, v))
    }

    fn unissued(&self) -> u64 {
        let above: HashSet<u32> = self.issued.iter().map(|x| x.0).filter(|i| u64::from(*i) >= self.issued_below).collect();
        INDEXES - self.issued_below - above.len() as u64
    }

    fn exhausted(&self) -> bool {
        self.unissued() == 0 && self.free.is_empty()
    }

    /// How many handles can still be issued.
    fn available(&self) -> u64 {
        self.unissued() + self.free.len() as u64
    }

    fn issue(&mut self, e: Entity) -> Result<(), String> {
        let h = raw(e);
        if self.was_issued(h) {
            err!("issued {e:?}, which was issued before");
        }
        if self.live.keys().chain(&self.pending).any(|x| x.0 == h.0) {
            err!("issued {e:?}, whose index is in use");
        }
        if u64::from(h.0) >= self.bulk.0 && u64::from(h.0) < self.bulk.1 {
            err!("issued {e:?}, whose index is in use by a deferred creation");
        }
        if h == (self.issued_below as u32, 1) && self.issued_below < INDEXES {
            self.issued_below += 1;
        } else {
            self.issued.insert(h);
        }
        self.free.remove(&h.0);
        Ok(())
    }

    fn retire(&mut self, h: (u32, u32)) {
        self.dead.insert(h);
        if h.1 < u32::MAX {
            self.free.insert(h.0);
        }
    }
}

/// What the aliased memory allows.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Filled {
    entities: bool,
    a: bool,
    b: bool,
}

struct Run {
    w: World,
    m: Model,
    next_value: u64,
    filled: Filled,
    /// Whether slow operations are allowed.
    heavy: bool,
    panics: u64,
    reset: bool,
}

/// Why the long loops ended early: the world legitimately chooses handles in another way.
struct Unexpected;

impl Run {
    fn new() -> Run {
        Run {
            w: World::default(),
            m: Model::default(),
            next_value: 0,
            filled: Filled::default(),
            heavy: false,
            panics: 0,
            reset: false,
        }
    }

    fn values(&mut self) -> (u64, u32) {
        self.next_value += 1;
        (1000 + self.next_value, 2000 + self.next_value as u32)
    }

    fn nth(&self, i: usize) -> Option<(u32, u32)> {
        self.m.live.keys().nth(i).copied()
    }

    /// Operations that can be executed with the memory there is.
    fn enabled(&self) -> Vec<Op> {
        let m = &self.m;
        let mut v = Vec::new();
        let bulk = m.bulk.0 < m.bulk.1;
        let unissued = m.unissued();
        let high = |n: u64, f: &dyn Fn(Filled) -> bool| {
            // An entity at a high index.
            let new = n > m.free.len() as u64 && unissued > 0;
            !(new || m.free.iter().any(|i| *i >= 1 << 20)) || m.issued_below < 1 << 20 || (!bulk && (self.heavy || f(self.filled)))
        };
        if high(1, &|f| f.entities) {
            v.push(Op::Create);
        }
        if high(1, &|f| f.entities && f.a) {
            v.push(Op::CreateA);
        }
        if high(1, &|f| f.entities && f.a && f.b) {
            v.push(Op::CreateAB);
        }
        if high(2, &|f| f.entities) {
            v.push(Op::Extend);
        }
        if high(2, &|f| f.entities && f.a && f.b) {
            v.push(Op::ExtendAB);
        }
        v.push(Op::Atomic);
        if !bulk && (m.pending.iter().all(|p| p.0 < 1 << 20) || self.heavy || self.filled.entities) {
            v.push(Op::Maintain);
        }
        // The first and the last two.
        let n = m.live.len();
        for i in (0..n).filter(|i| *i < 1 || *i + 2 >= n) {
            v.push(Op::Destroy(i));
            let low = m.live.keys().nth(i).unwrap().0 < 1 << 20;
            if i + 1 == n && (low || self.heavy || self.filled.a) {
                v.push(Op::InsertA(i));
            }
            if i + 1 == n && (low || self.heavy || self.filled.b) {
                v.push(Op::InsertB(i));
            }
            if i == 0 {
                v.push(Op::RemoveA(i));
            }
        }
        v.push(Op::Dead);
        v.push(Op::Clear);
        if !self.reset {
            v.push(Op::Reset);
        }
        v
    }

    /// Runs a creation of `n` entities and compares whether it succeeds.
    fn creation<R>(&mut self, n: u64, f: impl FnOnce(&mut World) -> R) -> Result<Option<R>, String> {
        let must_fail = self.m.available() < n;
        let w = &mut self.w;
        match catch_unwind(AssertUnwindSafe(|| f(w))) {
            Ok(r) => Ok(Some(r)),
            Err(_) => {
                self.panics += 1;
                if !must_fail {
                    err!(
                        "failed ({}) although {} indexes were never issued and {} are free",
                        last_panic(),
                        self.m.unissued(),
                        self.m.free.len()
                    );
                }
                Ok(None)
            }
        }
    }

    fn created(&mut self, e: Entity, a: Option<u64>, b: Option<u32>, exhausted: bool) -> Result<(), String> {
        if exhausted {
            err!("succeeded with {e:?} although all indexes have been issued and none is free");
        }
        self.m.issue(e)?;
        self.m.live.insert(raw(e), (a, b));
        if u64::from(e.index) >= 1 << 20 {
            self.filled.entities = true;
            self.filled.a |= a.is_some();
            self.filled.b |= b.is_some();
        }
        Ok(())
    }

    fn apply(&mut self, op: Op) -> Result<(), String> {
        let exhausted = self.m.exhausted();
        match op {
            Op::Create => {
                if let Some(e) = self.creation(1, |w| w.create(()))? {
                    self.created(e, None, None, exhausted)?;
                }
            }
            Op::CreateA => {
                let (a, _) = self.values();
                if let Some(e) = self.creation(1, |w| w.create((A::new(a),)))? {
                    self.created(e, Some(a), None, exhausted)?;
                }
            }
            Op::CreateAB => {
                let (a, b) = self.values();
                if let Some(e) = self.creation(1, |w| w.create((A::new(a), B(b))))? {
                    self.created(e, Some(a), Some(b), exhausted)?;
                }
            }
            Op::Extend | Op::ExtendAB => {
                let full = op == Op::ExtendAB;
                let vals = [self.values(), self.values()];
                let available = self.m.available();
                let r = self.creation(2, |w| {
                    if full {
                        w.extend(vals.iter().map(|v| (A::new(v.0), B(v.1)))).to_vec()
                    } else {
                        w.extend([(), ()]).to_vec()
                    }
                })?;
                let value = |i: usize| if full { (Some(vals[i].0), Some(vals[i].1)) } else { (None, None) };
                match r {
                    Some(es) => {
                        if es.len() != 2 {
                            err!("returned {es:?} for two entities");
                        }
                        if available < 2 {
                            err!("succeeded with {es:?} although only {available} more entities can be created");
                        }
                        for (i, e) in es.into_iter().enumerate() {
                            let (a, b) = value(i);
                            self.created(e, a, b, false)?;
                        }
                    }
                    None => {
                        // Some may have been created before the failure.
                        let new: Vec<Entity> =
                            self.w.entities().iter().copied().filter(|e| !self.m.live.contains_key(&raw(*e))).collect();
                        if new.len() as u64 > available {
                            err!("created {new:?} although only {available} more entities can be created");
                        }
                        for (i, e) in new.into_iter().enumerate() {
                            let (a, b) = value(i);
                            self.created(e, a, b, false)?;
                        }
                    }
                }
            }
            Op::Atomic => {
                if let Some(e) = self.creation(1, |w| w.create_atomic())? {
                    if exhausted {
                        err!("succeeded with {e:?} although all indexes have been issued and none is free");
                    }
                    self.m.issue(e)?;
                    self.m.pending.insert(raw(e));
                }
            }
            Op::Maintain => {
                if let Err(_) = catch_unwind(AssertUnwindSafe(|| self.w.maintain())) {
                    err!("failed: {}", last_panic());
                }
                for h in std::mem::take(&mut self.m.pending) {
                    self.m.live.insert(h, (None, None));
                    self.filled.entities |= h.0 >= 1 << 20;
                }
            }
            Op::Destroy(i) => {
                let h = self.nth(i).ok_or("no such entity")?;
                if !self.w.destroy(entity(h.0, h.1)) {
                    err!("destroying the living {h:?} returned false");
                }
                self.m.live.remove(&h);
                self.m.retire(h);
            }
            Op::InsertA(i) => {
                let h = self.nth(i).ok_or("no such entity")?;
                let (a, _) = self.values();
                if !self.w.insert(entity(h.0, h.1), (A::new(a),)) {
                    err!("inserting into the living {h:?} returned false");
                }
                self.m.live.get_mut(&h).unwrap().0 = Some(a);
                self.filled.a |= h.0 >= 1 << 20;
            }
            Op::InsertB(i) => {
                let h = self.nth(i).ok_or("no such entity")?;
                let (_, b) = self.values();
                if !self.w.insert(entity(h.0, h.1), (B(b),)) {
                    err!("inserting into the living {h:?} returned false");
                }
                self.m.live.get_mut(&h).unwrap().1 = Some(b);
                self.filled.b |= h.0 >= 1 << 20;
            }
            Op::RemoveA(i) => {
                let h = self.nth(i).ok_or("no such entity")?;
                let want = self.m.live.get_mut(&h).unwrap().0.take();
                let got = self.w.remove::<(A,)>(entity(h.0, h.1)).0.map(|a| *a.0);
                if got != want {
                    err!("removing from {h:?} returned {got:?}, expected {want:?}");
                }
            }
            Op::Dead => {
                for h in self.m.dead.iter().chain(&self.m.pending) {
                    let e = entity(h.0, h.1);
                    if self.w.insert(e, (A::new(1),)) || self.w.insert(e, (B(1),)) {
                        err!("inserting into {e:?}, which is not alive, succeeded");
                    }
                    if self.w.remove::<(A,)>(e).0.is_some() {
                        err!("removing from {e:?}, which is not alive, returned a value");
                    }
                    self.w.delete::<(A, B)>(e);
                    if self.w.destroy(e) {
                        err!("destroying {e:?}, which is not alive, succeeded");
                    }
                }
            }
            Op::Clear => {
                self.w.clear();
                let m = &mut self.m;
                m.dead.extend(std::mem::take(&mut m.live).into_keys());
                m.dead.extend(std::mem::take(&mut m.pending));
                m.bulk = (0, 0);
                self.filled = Filled::default();
            }
            Op::Reset => {
                self.w.reset();
                self.m = Model::default();
                self.filled = Filled::default();
                self.reset = true;
            }
        }
        Ok(())
    }

    fn observe(&self) -> Result<(), String> {
        let (w, m) = (&self.w, &self.m);
        let listed: BTreeSet<(u32, u32)> = w.entities().iter().map(|e| raw(*e)).collect();
        if w.entities().len() != listed.len() || !listed.iter().eq(m.live.keys()) {
            err!("the world lists {:?}, expected {:?}", w.entities(), m.live.keys());
        }
        let dead = m.dead.iter().chain(&m.pending).map(|h| (h, false));
        for (h, alive) in dead.chain(m.live.keys().map(|h| (h, true))) {
            if w.contains_entity(entity(h.0, h.1)) != alive {
                err!("contains_entity({h:?}) is {}", !alive);
            }
            // Other versions of the same index.
            for v in [1, h.1.wrapping_sub(1), h.1.wrapping_add(1), u32::MAX] {
                if v != 0 && w.contains_entity(entity(h.0, v)) != m.live.contains_key(&(h.0, v)) {
                    err!("contains_entity({:?}) is {}", (h.0, v), !m.live.contains_key(&(h.0, v)));
                }
            }
        }
        for b in [m.bulk.0, (m.bulk.0 + m.bulk.1) / 2, m.bulk.1.wrapping_sub(1)] {
            if m.bulk.0 < m.bulk.1 && w.contains_entity(entity(b as u32, 1)) {
                err!("contains_entity({b}) is true for a pending entity");
            }
        }
        let (a, b) = (w.borrow::<A>(), w.borrow::<B>());
        let values: i64 = m.live.values().filter(|v| v.0.is_some()).count() as i64;
        if a.len() as i64 != values || b.len() != m.live.values().filter(|v| v.1.is_some()).count() {
            err!("there are {} A and {} B, expected {:?}", a.len(), b.len(), m.live);
        }
        if LIVE_VALUES.get() != values {
            err!("{} values of A exist, expected {values}", LIVE_VALUES.get());
        }
        for (h, want) in m.live.iter().map(|(h, x)| (h, *x)).chain(dead_values(m)) {
            let e = entity(h.0, h.1);
            let got = (a.get(e).map(|a| *a.0), b.get(e).map(|b| b.0));
            if got != want {
                err!("{h:?} has {got:?}, expected {want:?}");
            }
        }
        drop((a, b));
        let mut both: Vec<((u32, u32), u64, u32)> = Vec::new();
        w.query_all::<(Entity, &A, &B)>().for_each(|(e, a, b)| both.push((raw(e), *a.0, b.0)));
        both.sort_unstable();
        let want: Vec<_> = m.live.iter().filter_map(|(h, (a, b))| Some((*h, (*a)?, (*b)?))).collect();
        if both != want {
            err!("the query of A and B yields {both:?}, expected {want:?}");
        }
        let q = w.query_all::<(&A, &B)>();
        drop(q);
        let mut all: Vec<(u32, u32)> = Vec::new();
        w.query_all::<Entity>().for_each(|e| all.push(raw(e)));
        all.sort_unstable();
        if !all.iter().eq(m.live.keys()) {
            err!("the query of all entities yields {all:?}, expected {:?}", m.live.keys());
        }
        Ok(())
    }

    fn step(&mut self, op: Op) -> Result<(), String> {
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.apply(op)?;
            self.observe()
        }));
        match r {
            Ok(r) => r.map_err(|e| format!("{}: {e}", op.show())),
            Err(_) => Err(format!("{}: panicked: {}", op.show(), last_panic())),
        }
    }

    /// Creates and destroys an entity at index 0 until its next version is `target`, and creates it.
    fn cycle(&mut self, target: u32, alive: &dyn Fn()) -> Result<Result<(), Unexpected>, String> {
        for v in 1..=target {
            let e = self.w.create(());
            if raw(e) != (0, v) {
                if e.index == 0 && e.version.0.get() <= v {
                    err!("cycle {v} of creating and destroying issued {e:?}, which was issued before");
                }
                return Ok(Err(Unexpected));
            }
            if v < target && !self.w.destroy(e) {
                err!("destroying the living {e:?} returned false");
            }
            if v & 0xff_ffff == 0 {
                alive();
            }
        }
        self.m.issued_below = self.m.issued_below.max(1);
        self.m.cycled = target;
        self.m.live.insert((0, target), (None, None));
        Ok(Ok(()))
    }

    /// Creates deferred entities until `left` indexes are left.
    fn issue_indexes(&mut self, left: u64, alive: &dyn Fn()) -> Result<Result<(), Unexpected>, String> {
        let start = self.m.issued_below;
        let r = catch_unwind(AssertUnwindSafe(|| {
            for i in start..INDEXES - left {
                let e = self.w.create_atomic();
                if raw(e) != (i as u32, 1) {
                    if e.version == Version::FIRST && u64::from(e.index) < i {
                        err!("deferred creation {i} issued {e:?}, which was issued before");
                    }
                    return Ok(Err(Unexpected));
                }
                if i & 0xff_ffff == 0 {
                    alive();
                }
            }
            Ok(Ok(()))
        }));
        let r = match r {
            Ok(r) => r?,
            Err(_) => err!("deferred creation failed ({}) before all indexes were issued", last_panic()),
        };
        if r.is_ok() {
            if self.m.bulk.0 == self.m.bulk.1 {
                self.m.bulk.0 = start;
            }
            self.m.issued_below = INDEXES - left;
            self.m.bulk.1 = self.m.issued_below;
        }
        Ok(r)
    }
}

fn dead_values(m: &Model) -> impl Iterator<Item = (&(u32, u32), (Option<u64>, Option<u32>))> {
    m.dead.iter().chain(&m.pending).map(|h| (h, (None, None)))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Scenario {
    /// The version of entity 0 is close to the last one.
    Version,
    /// All indexes but n have been issued, most to deferred creations that are still pending.
    Index(u64),
    /// The same, then cleared: only the last n indexes are left, and used.
    High(u64),
    /// Entity 0 has almost the last version, and all indexes have been issued.
    Both,
}

impl Scenario {
    fn encode(self) -> String {
        match self {
            Scenario::Version => "version".into(),
            Scenario::Index(n) => format!("index{n}"),
            Scenario::High(n) => format!("high{n}"),
            Scenario::Both => "both".into(),
        }
    }

    fn decode(s: &str) -> Option<Scenario> {
        let n = |p: &str| s.strip_prefix(p).and_then(|x| x.parse().ok());
        Some(match s {
            "version" => Scenario::Version,
            "both" => Scenario::Both,
            _ => return n("index").map(Scenario::Index).or_else(|| n("high").map(Scenario::High)),
        })
    }

    fn show(self) -> String {
        match self {
            Scenario::Version => "2^32-3 times create and destroy at index 0, create; create two entities with components".into(),
            Scenario::Index(n) => format!("create three entities with components; create_atomic until {n} indexes are left"),
            Scenario::High(n) => {
                format!("create three entities with components; create_atomic until {n} indexes are left; clear; create((A, B))")
            }
            Scenario::Both => {
                "2^32-3 times create and destroy at index 0, create; create two entities with components; create_atomic until no indexes are left".into()
            }
        }
    }
}

const LAST_CYCLE: u32 = u32::MAX - 1;

/// Base states and the scenarios that start from them, in the order in which they are reached.
fn base(versions: bool, alive: &dyn Fn(), run: &mut Run) -> Result<Result<(), Unexpected>, String> {
    if versions {
        if let Err(u) = run.cycle(LAST_CYCLE, alive)? {
            return Ok(Err(u));
        }
    }
    // Only now, because the cycles are faster without.
    let mut layout = GroupLayout::default();
    layout.add_group::<(A, B)>();
    run.w.set_layout(&layout);
    if !versions {
        run.step(Op::CreateAB)?;
    }
    run.step(Op::CreateAB)?;
    run.step(Op::CreateA)?;
    Ok(Ok(()))
}

/// Continues from the state of the preceding scenario to this one.
fn advance(s: Scenario, run: &mut Run, alive: &dyn Fn()) -> Result<Result<(), Unexpected>, String> {
    match s {
        Scenario::Version => Ok(Ok(())),
        Scenario::Both => run.issue_indexes(0, alive),
        Scenario::Index(n) | Scenario::High(n) => run.issue_indexes(n, alive),
    }
}

/// The part of the setup that is private to the scenario.
fn enter(s: Scenario, run: &mut Run) -> Result<(), String> {
    if let Scenario::High(_) = s {
        run.step(Op::Clear)?;
        run.heavy = true;
        run.step(Op::CreateAB)?;
        run.heavy = false;
    }
    Ok(())
}

fn family(s: Scenario) -> bool {
    matches!(s, Scenario::Version | Scenario::Both)
}

const NODES: usize = 0;
const PANICS: usize = 1;
const LEAVES: usize = 2;
const ISSUED: usize = 3;
const RETIRED: usize = 4;
const ALIASED: usize = 5;

fn case(s: Scenario, path: &[Op]) -> String {
    format!("{};{}", s.encode(), path.iter().map(|o| o.encode()).collect::<Vec<_>>().join(","))
}

/// Explores all continuations of up to `depth` operations. Returns whether all held.
fn explore(s: Scenario, run: &mut Run, path: &mut Vec<Op>, depth: usize, sh: &Shared) -> bool {
    if depth == 0 {
        sh.add(LEAVES, 1);
        return true;
    }
    let snapshot = alias::snapshot();
    for op in run.enabled() {
        let ok = branch(s, run, path, op, depth, sh);
        snapshot.restore();
        if !ok {
            return false;
        }
    }
    true
}

fn branch(s: Scenario, run: &mut Run, path: &mut Vec<Op>, op: Op, depth: usize, sh: &Shared) -> bool {
    path.push(op);
    let p = fork::spawn(|| {
        fork::alarm(150);
        sh.set_case(&case(s, path));
        let r = run.step(op);
        sh.add(NODES, 1);
        if let Err(e) = r {
            sh.set_message(&e);
            return false;
        }
        if depth == 1 {
            sh.add(PANICS, run.panics);
            sh.add(ISSUED, u64::from(run.m.exhausted()));
            sh.add(RETIRED, u64::from(run.m.dead.iter().any(|h| h.1 == u32::MAX)));
            sh.add(ALIASED, u64::from(alias::regions() > 0));
        }
        explore(s, run, path, depth - 1, sh)
    });
    let ok = fork::wait(p);
    path.pop();
    match ok {
        End::Exit(0) => true,
        End::Exit(_) => false,
        End::Signal(n) => {
            if sh.message().is_empty() {
                sh.set_message(&if n == libc::SIGALRM {
                    "the operation does not terminate".to_string()
                } else {
                    format!("the process died on signal {n}")
                });
            }
            false
        }
    }
}

struct C13;

impl C13 {
    /// Explores everything from the current state with several processes.
    fn scenario(&self, ctx: &Ctx, s: Scenario, run: &mut Run, depth: usize, slots: usize) {
        let high = matches!(s, Scenario::High(_));
        let ops = if high { Vec::new() } else { run.enabled() };
        let mut running: Vec<(i32, &'static Shared)> = Vec::new();
        let mut done: Vec<&'static Shared> = Vec::new();
        let mut started = 0;
        let jobs = if high { slots } else { ops.len() };
        loop {
            ctx.alive();
            if ctx.stopped() {
                for (p, _) in running {
                    fork::kill(p);
                }
                return;
            }
            while running.len() < slots && started < jobs {
                let sh = Shared::new();
                let job = started;
                started += 1;
                let p = fork::spawn(|| {
                    let mut path = Vec::new();
                    if high {
                        // Each process has its own aliased memory, and takes its share of the operations.
                        fork::alarm(150);
                        sh.set_case(&case(s, &[]));
                        if let Err(e) = enter(s, run) {
                            sh.set_message(&e);
                            return false;
                        }
                        fork::alarm(0);
                        if std::env::var("ENGINE_PROGRESS").is_ok() {
                            eprintln!("{:.1}s {} entered", ctx.elapsed().as_secs_f64(), s.encode());
                        }
                        let snapshot = alias::snapshot();
                        run.enabled().into_iter().enumerate().filter(|(i, _)| i % jobs == job).all(|(_, op)| {
                            let ok = branch(s, run, &mut path, op, depth, sh);
                            snapshot.restore();
                            ok
                        })
                    } else {
                        branch(s, run, &mut path, ops[job], depth, sh)
                    }
                });
                running.push((p, sh));
            }
            if running.is_empty() {
                break;
            }
            let mut i = 0;
            while i < running.len() {
                match fork::poll(running[i].0) {
                    None => i += 1,
                    Some(end) => {
                        let (_, sh) = running.swap_remove(i);
                        done.push(sh);
                        if end != End::Exit(0) {
                            let m = sh.message();
                            let m = if m.is_empty() { format!("the process ended with {end:?}") } else { m };
                            ctx.violation(&sh.case(), &m);
                        }
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        let mut nodes = 0;
        for sh in &done {
            nodes += sh.get(NODES);
            ctx.add("states", sh.get(NODES));
            ctx.add("transitions", sh.get(NODES));
            ctx.add("traces_validated_against_impl", sh.get(LEAVES));
            ctx.add("refused_creations", sh.get(PANICS));
            ctx.add("histories_ending_exhausted", sh.get(ISSUED));
            ctx.add("histories_with_a_retired_index", sh.get(RETIRED));
            ctx.add("histories_with_entities_at_the_last_indexes", sh.get(ALIASED));
        }
        ctx.note("scenarios", &format!("{}: {nodes} operation sequences of up to {depth} operations", s.encode()));
        if std::env::var("ENGINE_PROGRESS").is_ok() {
            eprintln!("{:.1}s {}: {nodes} nodes", ctx.elapsed().as_secs_f64(), s.encode());
        }
        if let Some(sh) = done.last() {
            ctx.sample(self.explain(&sh.case()));
        }
    }
}

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }

    fn level(&self) -> &'static str {
        "model_checking"
    }

    fn address_space(&self) -> u64 {
        1 << 46
    }

    fn assumptions(&self) -> Vec<String> {
        vec![
            "Allocations of 256 MB and more (the arrays indexed by entity index) are backed by one 16 MB chunk mapped repeatedly; the indexes in use differ modulo the chunk.".into(),
            "Creating entities while 2^32 deferred ones are pending, which needs tens of gigabytes, is explored only when all indexes have been issued.".into(),
        ]
    }

    fn explore(&self, ctx: &Ctx) {
        let thorough = ctx.tier == Tier::Thorough;
        let deep = usize::from(thorough);
        let families: [Vec<(Scenario, usize)>; 2] = [
            vec![(Scenario::Version, 4 + deep), (Scenario::Both, 4 + deep)],
            if thorough {
                vec![(Scenario::High(4), 4), (Scenario::High(3), 4), (Scenario::High(2), 4), (Scenario::Index(2), 5), (Scenario::Index(0), 5)]
            } else {
                vec![(Scenario::High(3), 3), (Scenario::Index(2), 4), (Scenario::Index(0), 4)]
            },
        ];
        std::thread::scope(|t| {
            for (f, scenarios) in families.iter().enumerate() {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(t, move || {
                        let alive = || ctx.alive();
                        let mut run = Run::new();
                        let versions = f == 0;
                        ctx.begin(&case(scenarios[0].0, &[]));
                        let r = base(versions, &alive, &mut run);
                        if self.setup_failed(ctx, scenarios[0].0, r) {
                            return;
                        }
                        for (s, depth) in scenarios {
                            ctx.begin(&case(*s, &[]));
                            let r = advance(*s, &mut run, &alive);
                            if self.setup_failed(ctx, *s, r) || ctx.stopped() {
                                return;
                            }
                            if let Err(e) = run.observe() {
                                ctx.violation(&case(*s, &[]), &e);
                                return;
                            }
                            if std::env::var("ENGINE_PROGRESS").is_ok() {
                                eprintln!("{:.1}s {} reached", ctx.elapsed().as_secs_f64(), s.encode());
                            }
                            self.scenario(ctx, *s, &mut run, *depth, if matches!(s, Scenario::High(_)) { 4 } else { 6 });
                        }
                        ctx.end();
                        // Pending entities are not materialised.
                        std::mem::forget(run);
                    })
                    .unwrap();
            }
        });
    }

    fn replay(&self, c: &str) -> Result<(), String> {
        let (s, path) = parse(c).ok_or("bad case")?;
        let mut run = Run::new();
        if base(family(s), &|| (), &mut run)?.is_err() || advance(s, &mut run, &|| ())?.is_err() {
            return Ok(());
        }
        run.observe()?;
        enter(s, &mut run)?;
        for op in path {
            run.step(op)?;
        }
        std::mem::forget(run);
        Ok(())
    }

    fn explain(&self, c: &str) -> String {
        let Some((s, path)) = parse(c) else { return c.into() };
        std::iter::once(s.show()).chain(path.iter().map(|o| o.show())).collect::<Vec<_>>().join("; ")
    }
}

impl C13 {
    fn setup_failed(&self, ctx: &Ctx, s: Scenario, r: Result<Result<(), Unexpected>, String>) -> bool {
        match r {
            Ok(Ok(())) => false,
            Ok(Err(Unexpected)) => {
                ctx.cap(&format!("scenario {} cannot be reached in the expected number of operations", s.encode()));
                true
            }
            Err(e) => {
                ctx.violation(&case(s, &[]), &e);
                true
            }
        }
    }
}

fn parse(c: &str) -> Option<(Scenario, Vec<Op>)> {
    let (s, p) = c.split_once(';')?;
    Some((Scenario::decode(s)?, p.split(',').filter(|x| !x.is_empty()).map(Op::decode).collect::<Option<Vec<_>>>()?))
}

fn main() {
    engine::runner::main(&C13)
}
