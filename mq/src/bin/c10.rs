//! Every operation that fails because of the caller, at every point at which it can fail, in every state.

use engine::runner::{last_panic, Check, Ctx, Tier};
use engine::{alloc, ledger};
use mc::comps::*;
use mc::exec::{begin_run, Exec, Row};
use mc::op::{encode, Op};
use mc::system::*;
use mc::{err, observe};
use qtable::{qcheck, Desc, Kind};
use sparsey::{Entity, World};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// Never registered.
struct U(A);

impl U {
    const I: usize = 9;
    fn make() -> (Self, u32) {
        let (a, v) = A::make();
        (Self(a), v)
    }
}

thread_local! {
    /// Values written by callbacks before they panicked: entity, component, value.
    static WRITTEN: RefCell<Vec<(Entity, usize, u32)>> = const { RefCell::new(Vec::new()) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}

/// Panics of the caller's code.
fn bang() -> ! {
    std::panic::resume_unwind(Box::new("callback"))
}

/// Counts calls; panics at call `at`.
fn tick(at: usize) {
    let n = COUNT.get();
    COUNT.set(n + 1);
    if n == at {
        bang();
    }
}

/// What a failing operation may touch.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Scope {
    Nothing,
    /// The components of one living entity.
    Entity(u8, u8),
    /// It may leave new entities.
    New,
    /// Values that the callback has written.
    Written,
}

/// One failing operation: called with the world, the number of the entity and the point of failure.
struct Bad {
    name: &'static str,
    /// Components that must be registered.
    needs: u8,
    /// Components involved, if it names an entity.
    comps: Option<u8>,
    new: bool,
    writes: bool,
    /// Whether there are several points of failure.
    points: bool,
    run: fn(&mut World, Entity, usize),
}

impl Bad {
    const fn new(name: &'static str, needs: u8, run: fn(&mut World, Entity, usize)) -> Self {
        Self { name, needs, comps: None, new: false, writes: false, points: false, run }
    }
}

macro_rules! mask_of {
    ($($T:ident)*) => { (0 $(| (1u32 << $T::I))*) as u8 };
}

/// Operations on a tuple with an unregistered type.
macro_rules! unregistered {
    ($out:ident: $($T:ident $v:ident)*) => {{
        const M: u8 = mask_of!($($T)*) & 15;
        const NAME: &str = stringify!($($T)*);
        $out.push(Bad { new: true, ..Bad::new(concat!("create ", stringify!($($T)*)), M, |w, _, _| {
            $(let ($v, _) = $T::make();)*
            alloc::tagged(|| w.create(($($v,)*)));
        }) });
        $out.push(Bad { comps: Some(M), ..Bad::new(concat!("insert ", stringify!($($T)*)), M, |w, e, _| {
            $(let ($v, _) = $T::make();)*
            alloc::tagged(|| w.insert(e, ($($v,)*)));
        }) });
        $out.push(Bad { comps: Some(M), ..Bad::new(concat!("remove ", stringify!($($T)*)), M, |w, e, _| {
            let _ = alloc::tagged(|| w.remove::<($($T,)*)>(e));
        }) });
        $out.push(Bad { comps: Some(M), ..Bad::new(concat!("delete ", stringify!($($T)*)), M, |w, e, _| {
            alloc::tagged(|| w.delete::<($($T,)*)>(e));
        }) });
        $out.push(Bad { new: true, ..Bad::new(concat!("extend ", stringify!($($T)*)), M, |w, _, _| {
            let items: Vec<($($T,)*)> = (0..3).map(|_| { $(let ($v, _) = $T::make();)* ($($v,)*) }).collect();
            alloc::tagged(|| { w.extend(items); });
        }) });
        let _ = NAME;
    }};
}

/// Bulk creation from an iterator that panics.
macro_rules! panicking_iterator {
    ($out:ident: $($T:ident $v:ident)*) => {{
        const M: u8 = mask_of!($($T)*);
        $out.push(Bad { new: true, points: true, ..Bad::new(concat!("extend from a panicking map ", stringify!($($T)*)), M, |w, _, at| {
            alloc::tagged(|| {
                w.extend((0..4).map(|_| alloc::untagged(|| { tick(at); $(let ($v, _) = $T::make();)* ($($v,)*) })));
            });
        }) });
        $out.push(Bad { new: true, points: true, ..Bad::new(concat!("extend from a panicking function ", stringify!($($T)*)), M, |w, _, at| {
            let mut n = 0;
            alloc::tagged(|| {
                w.extend(std::iter::from_fn(|| alloc::untagged(|| {
                    tick(at);
                    n += 1;
                    if n > 5 { return None; }
                    $(let ($v, _) = $T::make();)*
                    Some(($($v,)*))
                })));
            });
        }) });
        $out.push(Bad { new: true, points: true, ..Bad::new(concat!("extend from a chain that panics in between ", stringify!($($T)*)), M, |w, _, at| {
            let items: Vec<($($T,)*)> = (0..2).map(|_| { $(let ($v, _) = $T::make();)* ($($v,)*) }).collect();
            alloc::tagged(|| {
                w.extend(items.into_iter().chain((0..2).map(|_| alloc::untagged(|| { tick(at); $(let ($v, _) = $T::make();)* ($($v,)*) }))));
            });
        }) });
        // The panic comes while a component is made, when others of its tuple exist already.
        $out.push(Bad { new: true, points: true, ..Bad::new(concat!("extend, panicking within an item ", stringify!($($T)*)), M, |w, _, at| {
            alloc::tagged(|| {
                w.extend((0..3).map(|_| alloc::untagged(|| { $(let ($v, _) = $T::make(); tick(at);)* ($($v,)*) })));
            });
        }) });
    }};
}

fn put<T: Comp>(e: Entity, t: &mut T) {
    let (new, v) = T::make();
    *t = new;
    WRITTEN.with_borrow_mut(|w| w.push((e, T::I, v)));
}

#[allow(clippy::too_many_lines)]
fn table() -> Vec<Bad> {
    let mut v: Vec<Bad> = Vec::new();
    unregistered!(v: U u);
    unregistered!(v: A a U u);
    unregistered!(v: U u A a);
    unregistered!(v: B b U u A a);
    unregistered!(v: A a B b U u);
    unregistered!(v: U u C c B b);
    unregistered!(v: A a B b C c U u);
    unregistered!(v: U u B b A a C c);
    unregistered!(v: D d U u C c);
    panicking_iterator!(v: A a);
    panicking_iterator!(v: B b);
    panicking_iterator!(v: A a B b);
    panicking_iterator!(v: C c A a);
    panicking_iterator!(v: A a B b C c);
    panicking_iterator!(v: D d B b);
    panicking_iterator!(v: A a B b C c D d);
    v.push(Bad {
        new: true,
        points: true,
        ..Bad::new("extend () from a panicking iterator", 0, |w, _, at| {
            alloc::tagged(|| {
                w.extend((0..3).map(|_| tick(at)));
            });
        })
    });

    // Queries that name unregistered or conflicting types.
    macro_rules! query {
        ($needs:expr, $($Q:ty),* $(,)?) => {
            $(v.push(Bad::new(concat!("query_all ", stringify!($Q)), $needs, |w, _, _| {
                w.query_all::<$Q>().iter().for_each(drop);
            }));
            v.push(Bad::new(concat!("query_one ", stringify!($Q)), $needs, |w, e, _| {
                w.query_one::<$Q>().contains(e);
            }));
            v.push(Bad::new(concat!("for_each ", stringify!($Q)), $needs, |w, _, _| {
                w.for_each::<$Q>(|_| ());
            }));)*
        };
    }
    query!(0, &U, &mut U, Option<&U>);
    query!(1, (&A, &U), (&U, &mut A), (&mut A, Option<&mut U>), (Entity, &mut A, &U), (&mut A, &A), (&A, &mut A), (&mut A, &mut A), (&mut A, Option<&A>));
    query!(3, (&mut A, &mut B, &U), (&U, &B, &A), (&A, &mut B, &mut A), (&B, &A, &mut B), (Option<&mut B>, &A, &B));
    query!(7, (&mut C, &mut B, &mut A, &U), (&C, &B, &A, &mut C));
    macro_rules! filter {
        ($needs:expr, $($G:ty, $I:ty, $E:ty);* $(;)?) => {
            $(v.push(Bad::new(concat!("query_all ", stringify!($G), " include ", stringify!($I), " exclude ", stringify!($E)), $needs, |w, _, _| {
                w.query_all::<$G>().include::<$I>().exclude::<$E>().iter().for_each(drop);
            }));
            v.push(Bad::new(concat!("query_one ", stringify!($G), " include ", stringify!($I), " exclude ", stringify!($E)), $needs, |w, e, _| {
                w.query_one::<$G>().include::<$I>().exclude::<$E>().contains(e);
            }));)*
        };
    }
    filter!(3,
        &mut A, &U, ();
        &mut A, (), &U;
        &mut A, &B, &U;
        &mut A, &U, &B;
        (&mut A, &mut B), (), &U;
        (&mut A, &mut B), &A, ();
        &mut A, (), &A;
        &mut A, (&B, &A), ();
        &mut A, &B, &A;
        (), (&A, &U), ();
        (), &A, (&B, &U);
    );

    // Views.
    v.push(Bad::new("borrow U", 0, |w, _, _| drop(w.borrow::<U>())));
    v.push(Bad::new("borrow_mut U", 0, |w, _, _| drop(w.borrow_mut::<U>())));
    v.push(Bad::new("borrow_with_group_info U", 0, |w, _, _| drop(w.borrow_with_group_info::<U>())));
    v.push(Bad::new("borrow_with_group_info_mut U", 0, |w, _, _| drop(w.borrow_with_group_info_mut::<U>())));
    v.push(Bad::new("borrow_mut A while A is viewed", 1, |w, _, _| {
        let _v = w.borrow::<A>();
        drop(w.borrow_mut::<A>());
    }));
    v.push(Bad::new("borrow A while A is viewed exclusively", 1, |w, _, _| {
        let _v = w.borrow_mut::<A>();
        drop(w.borrow::<A>());
    }));
    v.push(Bad::new("query (&mut B, &mut A) while A is viewed", 3, |w, _, _| {
        let _v = w.borrow::<A>();
        w.query_all::<(&mut B, &mut A)>().iter().for_each(drop);
    }));
    v.push(Bad::new("query (&C, &mut B, &A) while A is viewed exclusively", 7, |w, _, _| {
        let _v = w.borrow_mut::<A>();
        w.query_all::<(&C, &mut B, &A)>().iter().for_each(drop);
    }));
    v.push(Bad::new("query &mut B include A exclude C while C is viewed exclusively", 7, |w, _, _| {
        let _v = w.borrow_mut::<C>();
        w.query_all::<&mut B>().include::<&A>().exclude::<&C>().iter().for_each(drop);
    }));
    v.push(Bad { writes: true, ..Bad::new("index a view by an entity without the component", 1, |w, e, _| {
        let v = w.borrow::<A>();
        v[e].val();
        bang();
    }) });
    v.push(Bad { writes: true, ..Bad::new("write through an exclusive view and panic", 1, |w, e, _| {
        let mut v = w.borrow_mut::<A>();
        put(e, &mut v[e]);
        bang();
    }) });

    // Callbacks that panic, before or after writing.
    macro_rules! callback {
        ($needs:expr, $label:literal, $Q:ty, $inc:ty, $exc:ty, |$e:ident, $($x:ident)*|) => {
            v.push(Bad { writes: true, points: true, ..Bad::new(concat!("for_each ", $label), $needs, |w, _, at| {
                w.query_all::<$Q>().include::<$inc>().exclude::<$exc>().for_each(|($e, $($x,)*)| {
                    tick(at);
                    $(put($e, $x);)*
                });
            }) });
            v.push(Bad { writes: true, points: true, ..Bad::new(concat!("iterate ", $label, ", panic after writing"), $needs, |w, _, at| {
                for ($e, $($x,)*) in w.query_all::<$Q>().include::<$inc>().exclude::<$exc>().iter() {
                    $(put($e, $x);)*
                    tick(at);
                }
            }) });
            v.push(Bad { writes: true, points: true, ..Bad::new(concat!("fold ", $label, ", panic in between"), $needs, |w, _, at| {
                w.query_all::<$Q>().include::<$inc>().exclude::<$exc>().iter().fold(0, |n, ($e, $($x,)*)| {
                    $(put($e, $x); tick(at);)*
                    n + 1
                });
            }) });
        };
    }
    callback!(1, "(Entity, &mut A)", (Entity, &mut A), (), (), |e, a|);
    callback!(3, "(Entity, &mut B, &mut A)", (Entity, &mut B, &mut A), (), (), |e, b a|);
    callback!(3, "(Entity, &mut A) include B", (Entity, &mut A), &B, (), |e, a|);
    callback!(3, "(Entity, &mut B) exclude A", (Entity, &mut B), (), &A, |e, b|);
    callback!(7, "(Entity, &mut A, &mut B) exclude C", (Entity, &mut A, &mut B), (), &C, |e, a b|);
    callback!(7, "(Entity, &mut A, &mut B, &mut C)", (Entity, &mut A, &mut B, &mut C), (), (), |e, a b c|);
    v.push(Bad { writes: true, ..Bad::new("query_one map that panics after writing", 3, |w, e, _| {
        w.query_one::<(&mut B, &mut A)>().map(e, |(b, a)| {
            put(e, b);
            put(e, a);
            bang();
        });
    }) });
    v
}

#[derive(Default)]
struct Stats {
    evaluations: AtomicU64,
    failed: AtomicU64,
    by: Mutex<BTreeMap<&'static str, u64>>,
    samples: Mutex<Vec<String>>,
}

struct Obs {
    bad: Vec<Bad>,
    /// Looked at after the failure, and after some more operations.
    queries: Vec<Desc>,
    later: Vec<Desc>,
    seen: UpToRenaming,
    stats: Stats,
}

fn row_of(x: &Exec, e: Entity, r: &mut Row, mask: u8) {
    mc::for_registered!(x.m.registered, T => {
        if mask >> T::I & 1 == 1 {
            r[T::I] = x.w.borrow::<T>().get(e).map(Comp::val);
        }
    });
}

/// Accepts what the failed operation may have done, and nothing else.
fn resync(x: &mut Exec, scope: Scope) -> Result<(), String> {
    match scope {
        Scope::Nothing => {}
        Scope::Entity(s, mask) => {
            let (e, mut r) = x.m.ents[s as usize];
            row_of(x, e, &mut r, mask);
            x.m.ents[s as usize].1 = r;
        }
        Scope::New => {
            let new: Vec<Entity> = x.w.entities().iter().copied().filter(|e| !x.m.alive(*e)).collect();
            for e in new {
                x.check_issue(e, "the failed operation")?;
                let mut r: Row = [None; N];
                row_of(x, e, &mut r, 15);
                x.m.ents.push((e, r));
            }
        }
        Scope::Written => {
            for (e, c, v) in WRITTEN.take() {
                if let Some(r) = x.m.row_mut(e) {
                    r[c] = Some(v);
                }
            }
        }
    }
    Ok(())
}

fn conservation(x: &Exec) -> Result<(), String> {
    let stored: usize = x.m.ents.iter().map(|r| usize::from(r.1[0].is_some()) + usize::from(r.1[1].is_some())).sum();
    let zst: i64 = x.m.ents.iter().map(|r| i64::from(r.1[3].is_some())).sum();
    if ledger::live_count() != stored || ledger::live_zst() != zst {
        err!(
            "{} values exist, but {stored} are stored ({} and {zst} of the zero-sized ones)",
            ledger::live_count(),
            ledger::live_zst()
        );
    }
    Ok(())
}

impl Obs {
    /// Returns whether the operation failed.
    fn one(&self, cfg: &Cfg, h: &[Op], bad: &Bad, s: Option<u8>, at: usize) -> Result<bool, String> {
        self.stats.evaluations.fetch_add(1, Ordering::Relaxed);
        begin_run();
        WRITTEN.take();
        COUNT.set(0);
        let mut x = Exec::new(cfg.layout, cfg.registered);
        for op in h {
            x.apply(*op)?;
        }
        let e = s.map_or(mc::exec::entity(77, 1), |s| x.m.ents[s as usize].0);
        let scope = match (bad.comps, s) {
            _ if bad.new => Scope::New,
            _ if bad.writes => Scope::Written,
            (Some(m), Some(s)) => Scope::Entity(s, m),
            _ => Scope::Nothing,
        };
        let failed = catch_unwind(AssertUnwindSafe(|| (bad.run)(&mut x.w, e, at))).is_err();
        let what = if failed { "failed" } else { "did not fail" };
        guarded(|| {
            resync(&mut x, scope)?;
            conservation(&x)?;
            observe::basic(&x)?;
            qcheck::all_slices(&mut x, &self.queries)?;
            observe::full(&mut x)?;
            // Nothing is borrowed any more, and later operations work.
            mc::for_registered!(x.m.registered, T => drop(x.w.borrow_mut::<T>()));
            let all = x.m.registered;
            if !x.m.ents.is_empty() {
                let last = x.m.ents.len() as u8 - 1;
                x.apply(Op::Insert(last, all))?;
                x.apply(Op::Remove(0, all & 5))?;
                observe::basic(&x)?;
                x.apply(Op::Destroy(last / 2))?;
            }
            x.apply(Op::Create(all))?;
            x.apply(Op::Extend(all & 3, 2))?;
            x.apply(Op::Maintain)?;
            observe::basic(&x)?;
            qcheck::all_slices(&mut x, &self.later)?;
            conservation(&x)?;
            Ok(())
        })
        .map_err(|m| format!("after '{}' (entity {s:?}, point {at}), which {what}: {m}", bad.name))?;
        guarded(|| x.finish()).map_err(|m| format!("after '{}' (entity {s:?}, point {at}), which {what}: {m}", bad.name))?;
        if failed {
            self.stats.failed.fetch_add(1, Ordering::Relaxed);
        }
        Ok(failed)
    }
}

impl Observer for Obs {
    fn transition(&self, _: &mut Exec, _: &[Op]) -> Result<(), String> {
        Ok(())
    }
    fn new_state(&self, _: &mut Exec, _: &[Op]) -> Result<(), String> {
        Ok(())
    }
    fn after(&self, cfg: &Cfg, h: &[Op]) -> Result<(), String> {
        begin_run();
        let mut x = Exec::new(cfg.layout, cfg.registered);
        for op in h {
            x.apply(*op)?;
        }
        let new = self.seen.is_new(&x);
        let (reg, n) = (x.m.registered, x.m.ents.len() as u8);
        drop(x);
        if !new {
            return Ok(());
        }
        for bad in &self.bad {
            if bad.needs & !reg != 0 {
                continue;
            }
            let by_entity = bad.comps.is_some() || (bad.writes && !bad.points);
            let slots: Vec<Option<u8>> = if by_entity { (0..n).map(Some).chain([None]).collect() } else { vec![n.checked_sub(1)] };
            let mut fails = 0;
            for s in slots {
                for at in 0.. {
                    if !self.one(cfg, h, bad, s, at)? {
                        break;
                    }
                    fails += 1;
                    if !bad.points {
                        break;
                    }
                    if at > 1000 {
                        err!("'{}' fails without end", bad.name);
                    }
                }
            }
            if fails > 0 {
                *self.stats.by.lock().unwrap().entry(bad.name).or_default() += fails;
            }
        }
        let mut s = self.stats.samples.lock().unwrap();
        if s.len() < 8 && h.len() > 2 {
            s.push(format!("{}: every failing operation at every point", encode(h)));
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[0, 3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, three components",
            layout,
            registered: 0b0111,
            create: vec![0, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            atomic: thorough,
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    let layouts: &[u8] = if thorough { &[0, 4, 5, 6, 14, 15, 16] } else { &[6] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, four components",
            layout,
            registered: 0b1111,
            create: vec![3, 15],
            insert: vec![8, 4],
            remove: vec![1, 2, 4, 8],
            destroy: false,
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "storage about to grow",
        layout: 3,
        registered: 0b0111,
        extend: vec![(7, 3), (3, 2), (7, 2)],
        remove: vec![1],
        destroy: false,
        max_live: 8,
        max_index: 8,
        depth: if thorough { 4 } else { 2 },
        ..Cfg::default()
    });
    if thorough {
        v.push(Cfg {
            name: "three entities",
            layout: 3,
            registered: 0b0111,
            create: vec![0, 3, 7],
            insert: vec![1, 4],
            remove: vec![1, 2, 4],
            ..Cfg::default()
        });
    }
    v
}

struct C10(BfsCheck<Obs>);

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn explore(&self, ctx: &Ctx) {
        self.0.explore(ctx);
        let s = &self.0.obs.stats;
        ctx.add("evaluations", s.evaluations.load(Ordering::Relaxed));
        ctx.add("distinct_nontrivial", s.failed.load(Ordering::Relaxed));
        ctx.add("kinds_of_failing_operations", s.by.lock().unwrap().len() as u64);
        ctx.note("rule", "a case is a state (contents up to renaming), an operation, the entity it names and the point at which the caller's code panics; it is nontrivial if the operation failed there; conservation of values and everything the world shows are checked afterwards, as well as further operations");
        ctx.note("operations", &s.by.lock().unwrap().iter().map(|(k, n)| format!("{k}: {n}")).collect::<Vec<_>>().join("; "));
        for t in s.samples.lock().unwrap().iter() {
            ctx.sample(t.clone());
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        catch_unwind(AssertUnwindSafe(|| self.0.replay(case))).unwrap_or_else(|_| Err(last_panic()))
    }
    fn explain(&self, case: &str) -> String {
        self.0.explain(case)
    }
    fn assumptions(&self) -> Vec<String> {
        self.0.assumptions()
    }
}

/// Mutable parts of every combination of components, with at most `exc` others excluded.
fn queries(exc: u32) -> Vec<Desc> {
    let plain = |d: &Desc| {
        d.inc == 0 && !d.nothing && d.exc.count_ones() <= exc && d.has_entity() && d.parts.iter().all(|p| matches!(p.kind, Kind::Entity | Kind::Mut))
    };
    qtable::plain_table().into_iter().filter(plain).collect()
}

fn main() {
    let obs = Obs { bad: table(), queries: queries(1), later: queries(0), seen: UpToRenaming::default(), stats: Stats::default() };
    engine::runner::main(&C10(BfsCheck { id: "C10", cfgs, obs, assumptions: &[] }))
}
