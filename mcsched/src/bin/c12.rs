//! Exclusive and shared access to component types, from one thread and from several.
use engine::runner::{last_panic, Check, Ctx, Tier};
use mcsched::{account, read_path, show_path};
use rayon::iter::ParallelIterator;
use sched::{Limits, Run};
use sparsey::component::GroupLayout;
use sparsey::query::{Query, QueryAll, QueryOne};
use sparsey::{Entity, World};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Comp<const K: usize> {
    entity: usize,
    value: u64,
}

type A = Comp<0>;
type B = Comp<1>;
type C = Comp<2>;
const NAMES: [&str; 3] = ["A", "B", "C"];

/// Access to A, B and C: 0 none, 1 shared, 2 exclusive.
type Modes = [u8; 3];

fn conflict(x: Modes, y: Modes) -> bool {
    (0..3).any(|i| (x[i] == 2 && y[i] > 0) || (y[i] == 2 && x[i] > 0))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Phase {
    Attempt,
    Held,
    Release,
    Done,
}

struct Record {
    thread: usize,
    kind: usize,
    phase: Phase,
    /// Accesses that can be the reason of a refusal.
    overlaps: BTreeSet<(usize, usize)>,
    name: (usize, usize),
}

#[derive(Default)]
struct State {
    records: Vec<Record>,
    counts: [usize; 8],
    /// Expected values by component and entity.
    values: [[u64; 2]; 3],
    writes: u64,
    refused: u64,
    granted: u64,
    error: Option<String>,
    /// Whether there are no entities.
    empty: bool,
}

/// What is known of all accesses.
#[derive(Default)]
struct Tracker(RefCell<State>);

impl Tracker {
    fn fail(&self, m: String) {
        self.0.borrow_mut().error.get_or_insert(m);
    }

    /// Something that there must be, unless there are no entities.
    fn missing(&self, m: &str) {
        if !self.0.borrow().empty {
            self.fail(m.to_string());
        }
    }

    fn publish(&self) {
        let s = self.0.borrow();
        let open: Vec<_> = s.records.iter().filter(|r| r.phase != Phase::Done).map(|r| (r.name, r.phase, &r.overlaps)).collect();
        let mut open = open;
        open.sort_by_key(|x| x.0);
        sched::set_extra(&(open, s.values));
    }

    fn begin(&self, kind: usize) -> usize {
        let thread = if sched::active() { 1 + sched::thread() } else { 0 };
        let id = {
            let mut s = self.0.borrow_mut();
            let name = (thread, s.counts[thread]);
            s.counts[thread] += 1;
            let mut overlaps = BTreeSet::new();
            let modes = KINDS[kind].modes;
            for r in &mut s.records {
                if r.phase != Phase::Done && conflict(KINDS[r.kind].modes, modes) {
                    overlaps.insert(r.name);
                    if r.phase == Phase::Attempt {
                        r.overlaps.insert(name);
                    }
                }
            }
            s.records.push(Record { thread, kind, phase: Phase::Attempt, overlaps, name });
            s.records.len() - 1
        };
        self.publish();
        id
    }

    fn acquired(&self, id: usize) {
        {
            let mut s = self.0.borrow_mut();
            s.granted += 1;
            let k = s.records[id].kind;
            let m = KINDS[k].modes;
            let bad = s
                .records
                .iter()
                .enumerate()
                .find(|(i, r)| *i != id && r.phase == Phase::Held && conflict(KINDS[r.kind].modes, m))
                .map(|(_, r)| format!("{} was granted while thread {} has {}", KINDS[k].name, r.thread, KINDS[r.kind].name));
            if let Some(b) = bad {
                s.error.get_or_insert(b);
            }
            if KINDS[k].impossible {
                s.error.get_or_insert(format!("{} was granted although its parts conflict", KINDS[k].name));
            }
            s.records[id].phase = Phase::Held;
        }
        self.publish();
    }

    fn refused(&self, id: usize) {
        {
            let mut s = self.0.borrow_mut();
            s.refused += 1;
            let k = s.records[id].kind;
            if s.records[id].overlaps.is_empty() && !KINDS[k].impossible {
                s.error.get_or_insert(format!(
                    "{} was refused ({}) although there is no conflicting access",
                    KINDS[k].name,
                    last_panic()
                ));
            }
            s.records[id].phase = Phase::Done;
        }
        self.publish();
    }

    fn set(&self, id: usize, p: Phase) {
        self.0.borrow_mut().records[id].phase = p;
        self.publish();
    }

    fn read<const K: usize>(&self, c: &Comp<K>) {
        sched::cell_read(K * 2 + c.entity % 2);
        sched::observe(&(K, c.entity, c.value));
        let want = self.0.borrow().values[K].get(c.entity).copied();
        if want != Some(c.value) {
            self.fail(format!("read {} {c:?} but the last value given to it is {want:?}", NAMES[K]));
        }
    }

    fn write<const K: usize>(&self, c: &mut Comp<K>) {
        self.read(c);
        sched::cell_write(K * 2 + c.entity % 2);
        {
            let mut s = self.0.borrow_mut();
            s.writes += 1;
            let thread = if sched::active() { 1 + sched::thread() as u64 } else { 0 };
            // Different for every write, and the same in all executions.
            let v = c.value * 10 + 1 + thread;
            c.value = v % 1_000_000_007;
            s.values[K][c.entity % 2] = c.value;
        }
        self.publish();
    }
}

/// An access that was granted.
trait Held {
    fn touch(&mut self, t: &Tracker);
}

struct H<T, F: FnMut(&mut T, &Tracker)>(T, F);

impl<T, F: FnMut(&mut T, &Tracker)> Held for H<T, F> {
    fn touch(&mut self, t: &Tracker) {
        if !t.0.borrow().empty {
            (self.1)(&mut self.0, t);
        }
    }
}

fn held<'w, T: 'w>(x: T, f: impl FnMut(&mut T, &Tracker) + 'w) -> Box<dyn Held + 'w> {
    Box::new(H(x, f))
}

/// What queries yield.
trait Touch {
    fn touch(self, t: &Tracker);
}

impl<const K: usize> Touch for &Comp<K> {
    fn touch(self, t: &Tracker) {
        t.read(self);
    }
}

impl<const K: usize> Touch for &mut Comp<K> {
    fn touch(self, t: &Tracker) {
        t.write(self);
    }
}

impl Touch for Entity {
    fn touch(self, _: &Tracker) {}
}

impl<T: Touch> Touch for Option<T> {
    fn touch(self, t: &Tracker) {
        if let Some(x) = self {
            x.touch(t);
        }
    }
}

impl<X: Touch> Touch for (X,) {
    fn touch(self, t: &Tracker) {
        self.0.touch(t);
    }
}

impl<X: Touch, Y: Touch> Touch for (X, Y) {
    fn touch(self, t: &Tracker) {
        self.0.touch(t);
        self.1.touch(t);
    }
}

impl<X: Touch, Y: Touch, Z: Touch> Touch for (X, Y, Z) {
    fn touch(self, t: &Tracker) {
        self.0.touch(t);
        self.1.touch(t);
        self.2.touch(t);
    }
}

fn all<'w, G, I, E>(q: QueryAll<'w, G, I, E>) -> Box<dyn Held + 'w>
where
    G: Query + 'w,
    I: Query + 'w,
    E: Query + 'w,
    for<'a> G::Item<'a>: Touch,
{
    held(q, |q, t| {
        let mut n = 0;
        for item in q.iter() {
            item.touch(t);
            n += 1;
        }
        if n == 0 {
            t.fail("a query that matches an entity yields nothing".into());
        }
    })
}

fn one<'w, G, I, E>(q: QueryOne<'w, G, I, E>, e: Entity) -> Box<dyn Held + 'w>
where
    G: Query + 'w,
    I: Query + 'w,
    E: Query + 'w,
    for<'a> G::Item<'a>: Touch,
{
    held(q, move |q, t| match q.get(e) {
        Some(item) => item.touch(t),
        None => t.fail("a lookup that matches yields nothing".into()),
    })
}

type Acquire = for<'w> fn(&'w World, &'w Tracker, usize, [Entity; 2]) -> Option<Box<dyn Held + 'w>>;

struct Kind {
    name: &'static str,
    modes: Modes,
    /// Its parts conflict with each other.
    impossible: bool,
    acquire: Acquire,
}

/// Runs in a callback during an access.
fn inside(t: &Tracker, id: usize, f: impl FnOnce()) {
    t.acquired(id);
    sched::point();
    f();
    sched::point();
    // It may end now.
    t.set(id, Phase::Release);
}

macro_rules! kind {
    ($name:expr, $modes:expr, |$w:ident, $t:ident, $id:ident, $e:ident| $x:expr) => {
        Kind { name: $name, modes: $modes, impossible: false, acquire: |$w, $t, $id, $e| { let _ = ($t, $id, $e); Some($x) } }
    };
    (transient $name:expr, $modes:expr, |$w:ident, $t:ident, $id:ident, $e:ident| $x:expr) => {
        Kind { name: $name, modes: $modes, impossible: false, acquire: |$w, $t, $id, $e| { let _ = ($t, $id, $e); $x; None } }
    };
    (impossible $name:expr, $modes:expr, |$w:ident| $x:expr) => {
        Kind { name: $name, modes: $modes, impossible: true, acquire: |$w, _, _, _| Some($x) }
    };
}

fn slices<'w, const K: usize>(v: sparsey::component::ViewMut<'w, Comp<K>>) -> Box<dyn Held + 'w> {
    held(v, |v, t| v.as_mut_slice().iter_mut().for_each(|c| t.write(c)))
}

static KINDS: &[Kind] = &[
    // The first six are the probes.
    kind!("borrow::<A>", [1, 0, 0], |w, t, id, e| held(w.borrow::<A>(), |v, t| v.as_slice().iter().for_each(|c| t.read(c)))),
    kind!("borrow_mut::<A>", [2, 0, 0], |w, t, id, e| slices(w.borrow_mut::<A>())),
    kind!("borrow::<B>", [0, 1, 0], |w, t, id, e| held(w.borrow::<B>(), move |v, t| t.read(&v[e[0]]))),
    kind!("borrow_mut::<B>", [0, 2, 0], |w, t, id, e| held(w.borrow_mut::<B>(), move |v, t| t.write(&mut v[e[0]]))),
    kind!("borrow::<C>", [0, 0, 1], |w, t, id, e| held(w.borrow::<C>(), move |v, t| t.read(v.get(e[0]).unwrap()))),
    kind!("borrow_mut::<C>", [0, 0, 2], |w, t, id, e| held(w.borrow_mut::<C>(), move |v, t| t.write(v.get_mut(e[0]).unwrap()))),
    // Those for which all schedules are explored.
    kind!("query_all::<(&A,)>", [1, 0, 0], |w, t, id, e| all(w.query_all::<(&A,)>())),
    kind!("query_all::<(&mut A,)>", [2, 0, 0], |w, t, id, e| all(w.query_all::<(&mut A,)>())),
    kind!("query_all::<(&mut A, &B)>", [2, 1, 0], |w, t, id, e| all(w.query_all::<(&mut A, &B)>())),
    kind!("query_all::<(&A, &mut B)>", [1, 2, 0], |w, t, id, e| all(w.query_all::<(&A, &mut B)>())),
    kind!("query_all::<(Entity, Option<&mut A>)>", [2, 0, 0], |w, t, id, e| all(w.query_all::<(Entity, Option<&mut A>)>())),
    kind!("query_all::<(&mut B,)>().include::<(&A,)>().exclude::<(&C,)>()", [1, 2, 1], |w, t, id, e| all(
        w.query_all::<(&mut B,)>().include::<(&A,)>().exclude::<(&C,)>()
    )),
    kind!("query_one::<(&mut A,)>", [2, 0, 0], |w, t, id, e| one(w.query_one::<(&mut A,)>(), e[0])),
    kind!(transient "contains::<(&A, &B)>", [1, 1, 0], |w, t, id, e| if !w.contains::<(&A, &B)>(e[0]) {
        t.missing("contains is false")
    }),
    kind!(transient "for_each::<(&mut A,)>", [2, 0, 0], |w, t, id, e| w.for_each::<(&mut A,)>(|(a,)| inside(t, id, || t.write(a)))),
    // The others.
    kind!("query_all::<&A>", [1, 0, 0], |w, t, id, e| all(w.query_all::<&A>())),
    kind!("query_all::<&mut A>", [2, 0, 0], |w, t, id, e| all(w.query_all::<&mut A>())),
    kind!("query_all::<(&A, &B)>", [1, 1, 0], |w, t, id, e| all(w.query_all::<(&A, &B)>())),
    kind!("query_all::<(&A, &A)>", [1, 0, 0], |w, t, id, e| all(w.query_all::<(&A, &A)>())),
    kind!("query_all::<(&mut A, &mut B)>", [2, 2, 0], |w, t, id, e| all(w.query_all::<(&mut A, &mut B)>())),
    kind!("query_all::<(&C, &mut A, &B)>", [2, 1, 1], |w, t, id, e| all(w.query_all::<(&C, &mut A, &B)>())),
    kind!("query_all::<(Entity,)>", [0, 0, 0], |w, t, id, e| all(w.query_all::<(Entity,)>())),
    kind!("query_all::<(Entity, Option<&A>)>", [1, 0, 0], |w, t, id, e| all(w.query_all::<(Entity, Option<&A>)>())),
    kind!("query_all::<(&B, Option<&mut A>)>", [2, 1, 0], |w, t, id, e| all(w.query_all::<(&B, Option<&mut A>)>())),
    kind!("query_all::<(Entity,)>().include::<(&A,)>()", [1, 0, 0], |w, t, id, e| all(w.query_all::<(Entity,)>().include::<(&A,)>())),
    kind!("query_all::<(Entity,)>().include::<&mut A>()", [2, 0, 0], |w, t, id, e| all(w.query_all::<(Entity,)>().include::<&mut A>())),
    kind!("query_all::<(Entity,)>().exclude::<(&C,)>()", [0, 0, 1], |w, t, id, e| all(w.query_all::<(Entity,)>().exclude::<(&C,)>())),
    kind!("query_all::<&A>().exclude::<&mut C>()", [1, 0, 2], |w, t, id, e| all(w.query_all::<&A>().exclude::<&mut C>())),
    kind!("query_all::<&A>().include::<(&A, &mut B)>()", [1, 2, 0], |w, t, id, e| all(w.query_all::<&A>().include::<(&A, &mut B)>())),
    kind!("query_all::<&A>().exclude::<(Option<&C>, &C)>()", [1, 0, 1], |w, t, id, e| held(
        w.query_all::<&A>().exclude::<(Option<&C>, &C)>(),
        |q, t| q.iter().for_each(|a| t.read(a))
    )),
    kind!("query_all::<(&A, &mut B)>().slice()", [1, 2, 0], |w, t, id, e| held(w.query_all::<(&A, &mut B)>(), |q, t| {
        match q.slice() {
            Some((a, b)) => {
                a.iter().for_each(|a| t.read(a));
                b.iter_mut().for_each(|b| t.write(b));
            }
            None => q.iter().for_each(|x| x.touch(t)),
        }
    })),
    kind!("query_all::<(&mut A,)>().par_iter()", [2, 0, 0], |w, t, id, e| held(w.query_all::<(&mut A,)>(), |q, t| {
        let t = Shared(t);
        let t = &t;
        q.par_iter().for_each(|x| t.get().touched(x));
    })),
    kind!("query_one::<&A>", [1, 0, 0], |w, t, id, e| one(w.query_one::<&A>(), e[1])),
    kind!("query_one::<(&mut A, &mut B)>", [2, 2, 0], |w, t, id, e| one(w.query_one::<(&mut A, &mut B)>(), e[0])),
    kind!("query_one::<&A>().include::<&B>().exclude::<&mut C>()", [1, 1, 2], |w, t, id, e| one(
        w.query_one::<&A>().include::<&B>().exclude::<&mut C>(),
        e[1]
    )),
    kind!("query_one::<Option<&mut C>>", [0, 0, 2], |w, t, id, e| one(w.query_one::<Option<&mut C>>(), e[0])),
    kind!("borrow_with_group_info::<A>", [1, 0, 0], |w, t, id, e| held(w.borrow_with_group_info::<A>(), |v, t| v.0.as_slice().iter().for_each(|c| t.read(c)))),
    kind!("borrow_with_group_info_mut::<A>", [2, 0, 0], |w, t, id, e| slices(w.borrow_with_group_info_mut::<A>().0)),
    kind!(transient "contains::<&mut A>", [2, 0, 0], |w, t, id, e| if !w.contains::<&mut A>(e[0]) {
        t.missing("contains is false")
    }),
    kind!(transient "for_each::<(&A, &mut B)>", [1, 2, 0], |w, t, id, e| w.for_each::<(&A, &mut B)>(|(a, b)| inside(t, id, || {
        t.read(a);
        t.write(b);
    }))),
    kind!(transient "for_each::<&mut A> with a panicking callback", [2, 0, 0], |w, t, id, e| {
        let r = catch_unwind(AssertUnwindSafe(|| w.for_each::<&mut A>(|a| {
            inside(t, id, || t.write(a));
            std::panic::resume_unwind(Box::new(Mine));
        })));
        match r {
            Err(p) if p.is::<Mine>() => {}
            Err(p) => std::panic::resume_unwind(p),
            Ok(()) => t.missing("the panic of the callback is lost"),
        }
    }),
    kind!(transient "par_for_each::<(&A, &mut B)>", [1, 2, 0], |w, t, id, e| {
        let t = Shared(t);
        let t = &t;
        w.par_for_each::<(&A, &mut B)>(|x| inside(t.get(), id, || x.touch(t.get())))
    }),
    kind!(impossible "query_all::<(&A, &mut A)>", [2, 0, 0], |w| held(w.query_all::<(&A, &mut A)>(), |_, _| ())),
    kind!(impossible "query_all::<(&mut A, &mut A)>", [2, 0, 0], |w| held(w.query_all::<(&mut A, &mut A)>(), |_, _| ())),
    kind!(impossible "query_all::<(&B, &mut A, Option<&A>)>", [2, 1, 0], |w| held(w.query_all::<(&B, &mut A, Option<&A>)>(), |_, _| ())),
    kind!(impossible "query_all::<(&mut A,)>().include::<(&A,)>()", [2, 0, 0], |w| held(w.query_all::<(&mut A,)>().include::<(&A,)>(), |_, _| ())),
    kind!(impossible "query_all::<(&mut A,)>().exclude::<(&A,)>()", [2, 0, 0], |w| held(w.query_all::<(&mut A,)>().exclude::<(&A,)>(), |_, _| ())),
    kind!(impossible "query_all::<&B>().include::<&mut A>().exclude::<&A>()", [2, 1, 0], |w| held(w.query_all::<&B>().include::<&mut A>().exclude::<&A>(), |_, _| ())),
    kind!(impossible "query_one::<(&A, &mut A)>", [2, 0, 0], |w| held(w.query_one::<(&A, &mut A)>(), |_, _| ())),
    kind!(impossible "query_one::<&mut A>().exclude::<&A>()", [2, 0, 0], |w| held(w.query_one::<&mut A>().exclude::<&A>(), |_, _| ())),
];

struct Mine;

struct Shared<'a>(&'a Tracker);
// All threads of the scheduler run on one thread of the system.
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}

impl Shared<'_> {
    fn get(&self) -> &Tracker {
        self.0
    }
}

impl Tracker {
    fn touched(&self, x: impl Touch) {
        x.touch(self);
    }
}

const CONCURRENT: std::ops::Range<usize> = 0..15;

struct S {
    w: World,
    t: Tracker,
    e: [Entity; 2],
}

/// No groups, one, two nested ones; one without entities.
const LAYOUTS: usize = 4;

impl S {
    fn new(layout: usize) -> S {
        let mut l = GroupLayout::default();
        if layout == 1 || layout == 2 {
            l.add_group::<(A, B)>();
        }
        if layout == 2 {
            l.add_group::<(A, B, C)>();
        }
        let mut w = World::new(&l);
        w.register::<A>();
        w.register::<B>();
        w.register::<C>();
        let t = Tracker::default();
        let c = |k: u64, e: u64| 1 + k * 2 + e;
        // Both have A and B, only the first has C.
        let e0 = w.create((Comp::<0> { entity: 0, value: c(0, 0) }, Comp::<1> { entity: 0, value: c(1, 0) }, Comp::<2> { entity: 0, value: c(2, 0) }));
        let e1 = w.create((Comp::<0> { entity: 1, value: c(0, 1) }, Comp::<1> { entity: 1, value: c(1, 1) }));
        for k in 0..3 {
            for e in 0..2 {
                t.0.borrow_mut().values[k][e] = c(k as u64, e as u64);
            }
        }
        if layout > 2 {
            w.destroy(e0);
            w.destroy(e1);
        }
        t.0.borrow_mut().empty = layout > 2;
        S { w, t, e: [e0, e1] }
    }

    /// Writes the initial values again.
    fn restart(&mut self) {
        self.t = Tracker::default();
        self.t.0.borrow_mut().empty = self.w.is_empty();
        for k in 0..3 {
            for e in 0..2 {
                self.t.0.borrow_mut().values[k][e] = 1 + (k * 2 + e) as u64;
            }
        }
        let t = &self.t.0.borrow().values;
        self.w.borrow_mut::<A>().as_mut_slice().iter_mut().for_each(|c| c.value = t[0][c.entity]);
        self.w.borrow_mut::<B>().as_mut_slice().iter_mut().for_each(|c| c.value = t[1][c.entity]);
        self.w.borrow_mut::<C>().as_mut_slice().iter_mut().for_each(|c| c.value = t[2][c.entity]);
    }

    /// `Some(None)`: granted and over.
    #[allow(clippy::type_complexity)]
    fn acquire(&self, kind: usize) -> Option<(usize, Option<Box<dyn Held + '_>>)> {
        let id = self.t.begin(kind);
        match catch_unwind(AssertUnwindSafe(|| (KINDS[kind].acquire)(&self.w, &self.t, id, self.e))) {
            Ok(None) => {
                if self.t.0.borrow().records[id].phase == Phase::Attempt {
                    // `contains`: there is nothing that tells when it had access.
                    self.t.0.borrow_mut().granted += 1;
                }
                self.t.set(id, Phase::Done);
                Some((id, None))
            }
            Ok(Some(h)) => {
                self.t.acquired(id);
                Some((id, Some(h)))
            }
            Err(_) => {
                self.t.refused(id);
                None
            }
        }
    }

    fn release(&self, id: usize, h: Box<dyn Held + '_>) {
        self.t.set(id, Phase::Release);
        drop(h);
        self.t.set(id, Phase::Done);
    }

    fn error(&self) -> Result<(), String> {
        self.t.0.borrow_mut().error.take().map_or(Ok(()), Err)
    }

    /// Every component type can be accessed exactly as far as `held` allows.
    fn probe(&self) -> Result<(), String> {
        for k in 0..6 {
            if let Some((id, Some(mut h))) = self.acquire(k) {
                h.touch(&self.t);
                self.release(id, h);
            }
            self.error()?;
        }
        Ok(())
    }
}

/// Step of a sequential program: acquire a kind, or release the n-th of what is held.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Acquire(usize),
    Release(usize),
}

fn show_steps(p: &[Step]) -> String {
    p.iter()
        .map(|s| match s {
            Step::Acquire(k) => format!("a{k}"),
            Step::Release(i) => format!("r{i}"),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn read_steps(s: &str) -> Vec<Step> {
    s.split_whitespace()
        .filter_map(|t| {
            let n = t[1..].parse().ok()?;
            Some(if t.starts_with('a') { Step::Acquire(n) } else { Step::Release(n) })
        })
        .collect()
}

/// Runs a sequential program. Returns how many accesses are held at the end.
fn sequential(s: &S, steps: &[Step]) -> Result<usize, String> {
    let mut held: Vec<(usize, Box<dyn Held + '_>)> = Vec::new();
    for (i, step) in steps.iter().enumerate() {
        match *step {
            Step::Acquire(k) => {
                let modes = KINDS[k].modes;
                let free = held.iter().all(|h| !conflict(KINDS[s.t.0.borrow().records[h.0].kind].modes, modes)) && !KINDS[k].impossible;
                let granted = match s.acquire(k) {
                    Some((id, h)) => {
                        if let Some(mut h) = h {
                            h.touch(&s.t);
                            held.push((id, h));
                        }
                        true
                    }
                    None => false,
                };
                if granted != free && s.t.0.borrow().error.is_none() {
                    return Err(format!(
                        "{} was {}",
                        KINDS[k].name,
                        if granted { "granted although a conflicting access exists" } else { "refused although there is no conflicting access" }
                    ));
                }
            }
            Step::Release(n) => {
                if n < held.len() {
                    let (id, h) = held.remove(n);
                    s.release(id, h);
                }
            }
        }
        s.error()?;
        if i + 1 == steps.len() {
            // What is held is intact.
            for (_, h) in &mut held {
                h.touch(&s.t);
            }
            s.error()?;
            s.probe()?;
            for (_, h) in &mut held {
                h.touch(&s.t);
            }
            s.error()?;
        }
    }
    let n = held.len();
    for (id, h) in held {
        s.release(id, h);
    }
    s.probe()?;
    Ok(n)
}

/// What a thread does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Body {
    One(usize),
    /// One after the other.
    Then(usize, usize),
    /// The second while holding the first.
    Nested(usize, usize),
    /// The second while holding the first, which is released before the second.
    Crossed(usize, usize),
    /// Uses and releases what was acquired before the threads started.
    Given(usize),
}

impl Body {
    fn show(self) -> String {
        match self {
            Body::One(a) => format!("o{a}"),
            Body::Then(a, b) => format!("t{a}.{b}"),
            Body::Nested(a, b) => format!("n{a}.{b}"),
            Body::Crossed(a, b) => format!("x{a}.{b}"),
            Body::Given(a) => format!("g{a}"),
        }
    }

    fn read(s: &str) -> Option<Body> {
        let n: Vec<usize> = s[1..].split('.').filter_map(|x| x.parse().ok()).collect();
        Some(match (&s[..1], &n[..]) {
            ("o", [a]) => Body::One(*a),
            ("t", [a, b]) => Body::Then(*a, *b),
            ("n", [a, b]) => Body::Nested(*a, *b),
            ("x", [a, b]) => Body::Crossed(*a, *b),
            ("g", [a]) => Body::Given(*a),
            _ => return None,
        })
    }

    fn explain(self) -> String {
        let n = |k: usize| KINDS[k].name;
        match self {
            Body::One(a) => n(a).to_string(),
            Body::Then(a, b) => format!("{}, then {}", n(a), n(b)),
            Body::Nested(a, b) => format!("{} {{ {} }}", n(a), n(b)),
            Body::Crossed(a, b) => format!("{} {{ {} }} released in the same order", n(a), n(b)),
            Body::Given(a) => format!("uses and releases a given {}", n(a)),
        }
    }

    fn run(self, s: &S, given: &mut Option<(usize, Box<dyn Held + '_>)>) {
        let mut got = |k: usize| match s.acquire(k) {
            Some((id, Some(mut h))) => {
                h.touch(&s.t);
                Some((id, h))
            }
            _ => None,
        };
        match self {
            Body::One(a) => {
                if let Some((id, h)) = got(a) {
                    s.release(id, h);
                }
            }
            Body::Then(a, b) => {
                for k in [a, b] {
                    if let Some((id, h)) = got(k) {
                        s.release(id, h);
                    }
                }
            }
            Body::Nested(a, b) => {
                let mut outer = got(a);
                if let Some((id, h)) = got(b) {
                    s.release(id, h);
                }
                if let Some((_, h)) = &mut outer {
                    h.touch(&s.t);
                }
                if let Some((id, h)) = outer {
                    s.release(id, h);
                }
            }
            Body::Crossed(a, b) => {
                let first = got(a);
                let mut second = got(b);
                if let Some((id, h)) = first {
                    s.release(id, h);
                }
                if let Some((_, h)) = &mut second {
                    h.touch(&s.t);
                }
                if let Some((id, h)) = second {
                    s.release(id, h);
                }
            }
            Body::Given(_) => {
                sched::point();
                if let Some((id, mut h)) = given.take() {
                    h.touch(&s.t);
                    s.release(id, h);
                }
            }
        }
    }
}

/// Returns whether it completed.
fn concurrent(run: &mut Run, s: &mut S, bodies: &[Body]) -> Result<bool, String> {
    s.restart();
    let s = &*s;
    let mut given: Vec<Option<(usize, Box<dyn Held + '_>)>> = Vec::new();
    for b in bodies {
        given.push(match b {
            Body::Given(k) => match s.acquire(*k) {
                Some((id, Some(h))) => Some((id, h)),
                _ => None,
            },
            _ => None,
        });
    }
    let threads: Vec<Box<dyn FnOnce() + '_>> =
        bodies.iter().zip(&mut given).map(|(b, g)| Box::new(move || b.run(s, g)) as Box<dyn FnOnce() + '_>).collect();
    let Ok(panics) = run.threads(threads) else { return Ok(false) };
    if panics.iter().any(|p| p.is_some()) {
        return Err(format!("panicked: {}", last_panic()));
    }
    s.error()?;
    // What is still held was not taken by its thread.
    drop(given);
    s.probe().map_err(|e| format!("after all threads ended: {e}"))?;
    Ok(true)
}

struct C12;

fn programs(kinds: &[usize], depth: usize) -> Vec<Vec<Step>> {
    fn go(at: &mut Vec<Step>, kinds: &[usize], depth: usize, held: usize, out: &mut Vec<Vec<Step>>) {
        if !at.is_empty() {
            out.push(at.clone());
        }
        if at.len() == depth {
            return;
        }
        for k in kinds {
            // Whether it is granted is for the world to say: at most one more is held.
            at.push(Step::Acquire(*k));
            go(at, kinds, depth, held + 1, out);
            at.pop();
        }
        for i in 0..held {
            at.push(Step::Release(i));
            go(at, kinds, depth, held - 1, out);
            at.pop();
        }
    }
    let mut out = Vec::new();
    go(&mut Vec::new(), kinds, depth, 0, &mut out);
    out
}

impl C12 {
    fn sequential(&self, ctx: &Ctx) {
        let all: Vec<usize> = (0..KINDS.len()).collect();
        let few: Vec<usize> = match ctx.tier {
            Tier::Quick => vec![0, 1, 3, 8, 9, 12, 14, 42],
            Tier::Thorough => vec![0, 1, 3, 8, 9, 10, 11, 12, 14, 30, 42, 45],
        };
        let mut list = programs(&all, 3);
        list.extend(programs(&few, if ctx.tier == Tier::Quick { 5 } else { 6 }));
        let chunk = 512;
        let chunks = list.len().div_ceil(chunk);
        ctx.add("programs", list.len() as u64);
        ctx.parallel(LAYOUTS * chunks, |i| {
            let layout = i % LAYOUTS;
            let mut s = S::new(layout);
            for p in list.iter().skip(i / LAYOUTS * chunk).take(chunk) {
                let case = format!("seq {layout}|{}", show_steps(p));
                ctx.begin(&case);
                s.restart();
                let r = catch_unwind(AssertUnwindSafe(|| sequential(&s, p)))
                    .unwrap_or_else(|_| Err(format!("panicked: {}", last_panic())));
                if let Err(m) = r {
                    ctx.violation(&case, &m);
                    s = S::new(layout);
                }
            }
            ctx.add("evaluations", list.iter().skip(i / LAYOUTS * chunk).take(chunk).count() as u64);
            ctx.add("distinct_nontrivial", list.iter().skip(i / LAYOUTS * chunk).take(chunk).count() as u64);
            ctx.end();
        });
        for p in list.iter().step_by((list.len() / 6).max(1)) {
            ctx.sample(self.explain(&format!("seq 0|{}", show_steps(p))));
        }
    }

    fn concurrent(&self, ctx: &Ctx) {
        let kinds: Vec<usize> = CONCURRENT.collect();
        let all: Vec<usize> = (0..KINDS.len()).collect();
        let mut cases: Vec<Vec<Body>> = Vec::new();
        // Two threads, any kinds.
        for a in &all {
            for b in &all {
                if a <= b {
                    cases.push(vec![Body::One(*a), Body::One(*b)]);
                }
                if KINDS[*a].modes != [0, 0, 0] && !KINDS[*a].name.contains("for_each") && !KINDS[*a].name.starts_with("contains") && !KINDS[*a].impossible {
                    cases.push(vec![Body::Given(*a), Body::One(*b)]);
                }
            }
        }
        // Two threads with two accesses.
        let two: Vec<usize> = match ctx.tier {
            Tier::Quick => vec![0, 1, 3, 8, 9, 12, 14],
            Tier::Thorough => kinds.clone(),
        };
        let mut pairs: Vec<Body> = Vec::new();
        for a in &two {
            for b in &two {
                pairs.extend([Body::Then(*a, *b), Body::Nested(*a, *b), Body::Crossed(*a, *b)]);
            }
        }
        for (i, x) in pairs.iter().enumerate() {
            for k in &kinds {
                cases.push(vec![*x, Body::One(*k)]);
            }
            for y in &pairs[i..] {
                cases.push(vec![*x, *y]);
            }
        }
        // Three threads.
        for (i, a) in kinds.iter().enumerate() {
            for (j, b) in kinds.iter().enumerate().skip(i) {
                for c in kinds.iter().skip(j) {
                    cases.push(vec![Body::One(*a), Body::One(*b), Body::One(*c)]);
                }
            }
        }
        for a in &two {
            for b in &two {
                for c in &two {
                    cases.push(vec![Body::Given(*a), Body::One(*b), Body::One(*c)]);
                    if ctx.tier == Tier::Thorough && b <= c {
                        cases.push(vec![Body::Then(*a, *b), Body::One(*b), Body::One(*c)]);
                        cases.push(vec![Body::Nested(*a, *b), Body::One(*b), Body::One(*c)]);
                    }
                }
            }
        }
        if ctx.tier == Tier::Thorough {
            for a in [0, 1, 8, 9] {
                for b in [0, 1, 8, 9] {
                    for c in [0, 1, 9] {
                        cases.push(vec![Body::One(a), Body::One(b), Body::One(c), Body::One(1)]);
                    }
                }
            }
        }
        ctx.add("thread_programs", cases.len() as u64);
        let beat: &'static Ctx = unsafe { &*(ctx as *const Ctx) };
        let stride = (cases.len() / 12).max(1);
        let layouts = if ctx.tier == Tier::Quick { 1 } else { LAYOUTS };
        let chunk = 8;
        ctx.parallel(cases.len().div_ceil(chunk), |c| {
            for i in c * chunk..((c + 1) * chunk).min(cases.len()) {
                for layout in 0..layouts {
                    let bodies = &cases[i];
                    // Alternate, all of them in the thorough tier.
                    let layout = if layouts == 1 { i % LAYOUTS } else { layout };
                    let text = bodies.iter().map(|b| b.show()).collect::<Vec<_>>().join(" ");
                    let case = format!("par {layout}|{text}|");
                    ctx.begin(&case);
                    sched::set_heartbeat(Some(Box::new(|| {
                        beat.alive();
                        !beat.stopped()
                    })));
                    let mut s = std::mem::ManuallyDrop::new(S::new(layout));
                    let limits = Limits { weak: 2, executions: 2_000_000, ..Limits::default() };
                    rayon_core::configure(2, 0, false);
                    let (mut granted, mut refused) = (0, 0);
                    let o = sched::explore(limits, |run| {
                        let r = concurrent(run, &mut s, bodies);
                        granted += s.t.0.borrow().granted;
                        refused += s.t.0.borrow().refused;
                        if !matches!(r, Ok(true)) {
                            // The world is in an unknown state.
                            s = std::mem::ManuallyDrop::new(S::new(layout));
                        }
                        r.map(|_| ())
                    });
                    account(ctx, &o);
                    ctx.add("distinct_nontrivial", o.states);
                    ctx.add("accesses_granted", granted);
                    ctx.add("accesses_refused", refused);
                    if !o.complete && o.violation.is_none() {
                        ctx.cap(&format!("{case} has executions that were not explored"));
                    }
                    if let Some((p, m)) = &o.violation {
                        ctx.violation(&format!("{case}{}", show_path(p)), m);
                    } else {
                        drop(std::mem::ManuallyDrop::into_inner(s));
                    }
                    if i % stride == 0 {
                        ctx.sample(format!("{}: {} executions, {} states", self.explain(&case), o.executions, o.states));
                    }
                    sched::set_heartbeat(None);
                    ctx.end();
                }
            }
        });
    }
}

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }

    fn level(&self) -> &'static str {
        "exploration"
    }

    fn explore(&self, ctx: &Ctx) {
        self.sequential(ctx);
        if !ctx.stopped() {
            self.concurrent(ctx);
        }
        ctx.note("rule", "evaluations counts executed programs and schedules; distinct_nontrivial counts the sequential programs, which are all different, and the different states (observations of all threads and memory) in which the next thread was chosen. Every program of up to three accesses and releases of any of the forms of access, longer ones of few forms, and every schedule of two or three threads with one or two accesses each");
    }

    fn replay(&self, case: &str) -> Result<(), String> {
        let f: Vec<&str> = case.split('|').collect();
        if let Some(l) = f[0].strip_prefix("seq ") {
            let s = std::mem::ManuallyDrop::new(S::new(l.parse().unwrap_or(0)));
            return catch_unwind(AssertUnwindSafe(|| sequential(&s, &read_steps(f[1])).map(|_| ())))
                .unwrap_or_else(|_| Err(format!("panicked: {}", last_panic())));
        }
        let Some(l) = f[0].strip_prefix("par ") else { return Ok(()) };
        let bodies: Vec<Body> = f[1].split(' ').filter_map(Body::read).collect();
        let path = read_path(f.get(2).unwrap_or(&""));
        let mut s = std::mem::ManuallyDrop::new(S::new(l.parse().unwrap_or(0)));
        rayon_core::configure(2, 0, false);
        let limits = Limits { weak: 2, ..Limits::default() };
        if path.is_empty() {
            let o = sched::explore(limits, |run| concurrent(run, &mut s, &bodies).map(|_| ()));
            return o.violation.map_or(Ok(()), |v| Err(v.1));
        }
        sched::replay(limits, &path, |run| concurrent(run, &mut s, &bodies).map(|_| ()))
    }

    fn explain(&self, case: &str) -> String {
        let f: Vec<&str> = case.split('|').collect();
        if f[0].starts_with("seq") {
            let s: Vec<String> = read_steps(f[1])
                .iter()
                .map(|s| match s {
                    Step::Acquire(k) => format!("acquire {}", KINDS[*k].name),
                    Step::Release(i) => format!("release held #{i}"),
                })
                .collect();
            return format!("layout {}: {}", &f[0][4..], s.join("; "));
        }
        let b: Vec<String> = f[1].split(' ').filter_map(Body::read).map(|b| b.explain()).collect();
        format!("layout {}: threads [{}] schedule {}", &f[0][4..], b.join(" | "), f.get(2).unwrap_or(&""))
    }

    fn assumptions(&self) -> Vec<String> {
        vec![
            "the sources of sparsey and of atomic_refcell are compiled with `core::sync::atomic` replaced by atomics under the control of the scheduler; rayon runs on a stand-in for its thread pool".into(),
            "component values are the only memory for which data races are detected (by happens-before)".into(),
        ]
    }
}

fn main() {
    engine::runner::main(&C12)
}
