//! Parallel iteration under all divisions and schedules of the work.
use engine::runner::{last_panic, Check, Ctx, Tier};
use mcsched::{account, read_path, show_path};
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
use sched::{Limits, Run};
use sparsey::component::GroupLayout;
use sparsey::query::{ParIter, Query, QueryAll};
use sparsey::{Entity, World};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! err {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct A(u64);
#[derive(Clone, PartialEq, Eq, Debug)]
struct B(Box<u64>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct C(u8);

/// What an item refers to: what, its address and value.
type Cell = (char, usize, u64);
type Row = Vec<Cell>;

trait ToRow {
    fn row(self, r: &mut Row);
}

impl ToRow for () {
    fn row(self, _: &mut Row) {}
}

impl ToRow for Entity {
    fn row(self, r: &mut Row) {
        r.push(('e', 0, u64::from(self.index) << 32 | u64::from(self.version.0.get())));
    }
}

impl<T: ToRow> ToRow for Option<T> {
    fn row(self, r: &mut Row) {
        match self {
            Some(x) => x.row(r),
            None => r.push(('-', 0, 0)),
        }
    }
}

macro_rules! comp_row {
    ($T:ty, $n:literal, $m:literal, |$x:ident| $get:expr, |$y:ident| $set:expr) => {
        impl ToRow for &$T {
            fn row(self, r: &mut Row) {
                let $x = self;
                r.push(($n, self as *const $T as usize, $get));
            }
        }
        impl ToRow for &mut $T {
            fn row(self, r: &mut Row) {
                let v = {
                    let $x = &*self;
                    $get
                };
                r.push(($m, self as *const $T as usize, v));
                // Every matching value is written once.
                let $y = self;
                $set;
            }
        }
    };
}

comp_row!(A, 'a', 'A', |x| x.0, |x| x.0 += 100);
comp_row!(B, 'b', 'B', |x| *x.0, |x| *x.0 += 100);
comp_row!(C, 'c', 'C', |x| u64::from(x.0), |x| x.0 += 100);

macro_rules! tuple_row {
    ($(($($X:ident $i:tt),+))*) => {
        $(
            impl<$($X: ToRow),+> ToRow for ($($X,)+) {
                fn row(self, r: &mut Row) {
                    $(self.$i.row(r);)+
                }
            }
        )*
    };
}

tuple_row!((X 0) (X 0, Y 1) (X 0, Y 1, Z 2));

fn row(x: impl ToRow) -> Row {
    let mut r = Row::new();
    x.row(&mut r);
    r
}

/// Values that are written are restored between executions.
const MAX: usize = 8;

struct W {
    w: World,
    parts: Vec<u8>,
}

const LAYOUTS: usize = 4;

impl W {
    /// Entities with the given sets of components, as bits.
    fn new(layout: usize, parts: &[u8]) -> W {
        let mut l = GroupLayout::default();
        match layout {
            1 => l.add_group::<(A, B)>(),
            2 => {
                l.add_group::<(A, B)>();
                l.add_group::<(A, B, C)>();
            }
            3 => {
                l.add_group::<(B, C)>();
            }
            _ => {}
        }
        let mut w = World::new(&l);
        w.register::<A>();
        w.register::<B>();
        w.register::<C>();
        // Entities and components are not at the same positions.
        let spare = w.create((A(90), B(Box::new(90)), C(90)));
        let other = w.create((B(Box::new(91)),));
        for (i, p) in parts.iter().enumerate() {
            let e = w.create(());
            let v = i as u64 + 1;
            if p & 4 != 0 {
                w.insert(e, (C(v as u8 + 40),));
            }
            if p & 2 != 0 {
                w.insert(e, (B(Box::new(v + 20)),));
            }
            if p & 1 != 0 {
                w.insert(e, (A(v),));
            }
        }
        w.destroy(spare);
        w.destroy(other);
        W { w, parts: parts.to_vec() }
    }

    fn values(&self) -> Vec<(char, u64)> {
        let mut v: Vec<(char, u64)> = Vec::new();
        v.extend(self.w.borrow::<A>().as_slice().iter().map(|x| ('A', x.0)));
        v.extend(self.w.borrow::<B>().as_slice().iter().map(|x| ('B', *x.0)));
        v.extend(self.w.borrow::<C>().as_slice().iter().map(|x| ('C', u64::from(x.0))));
        v.sort_unstable();
        v
    }

    fn restore(&self) {
        self.w.borrow_mut::<A>().as_mut_slice().iter_mut().for_each(|x| x.0 %= 100);
        self.w.borrow_mut::<B>().as_mut_slice().iter_mut().for_each(|x| *x.0 %= 100);
        self.w.borrow_mut::<C>().as_mut_slice().iter_mut().for_each(|x| x.0 %= 100);
    }
}

/// All threads of the scheduler run on one thread of the system.
struct One<T>(T);
unsafe impl<T> Sync for One<T> {}
unsafe impl<T> Send for One<T> {}

impl<T> One<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

struct Log(One<RefCell<Vec<Row>>>);

impl Log {
    fn item(&self, x: impl ToRow) -> Row {
        let r = row(x);
        self.0.get().borrow_mut().push(r.clone());
        // Others run while this one still refers to its item.
        sched::point();
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Use {
    ForEach,
    ParForEach,
    Collect,
    Filter,
    Count,
    Sum,
    Fold,
    FindAny,
    Any,
    Panic(usize),
    OptLen,
    While,
    // Dense only.
    Len,
    Enumerate,
    ZipRange,
    ZipSelf,
    Rev,
    MinLen,
    MaxLen,
    Chunks,
    Skip,
    Take,
    StepBy,
    FindFirst,
    IntoVec,
    DenseForEach,
    DenseCollect,
}

use Use::*;

const USES: &[Use] = &[
    ForEach, ParForEach, Collect, Filter, Count, Sum, Fold, FindAny, Any, Panic(0), Panic(1), Panic(2), OptLen, While, Len, Enumerate,
    ZipRange, ZipSelf, Rev, MinLen, MaxLen, Chunks, Skip, Take, StepBy, FindFirst, IntoVec, DenseForEach, DenseCollect,
];

/// What is done with every item: the result of the consumer, and whether it is ordered.
struct Got {
    rows: Vec<Row>,
    ordered: bool,
    /// Not all items have to be visited.
    partial: bool,
}

fn all(rows: Vec<Row>, ordered: bool) -> Result<Option<Got>, String> {
    Ok(Some(Got { rows, ordered, partial: false }))
}

struct Mine;

/// A property of rows that some of them have.
fn odd(r: &Row) -> bool {
    r.last().is_some_and(|c| c.2 % 2 == 1)
}

/// Consumes in one of the ways. `None`: not applicable.
fn consume<'w, G, I, E>(
    mut q: QueryAll<'w, G, I, E>,
    again: Option<QueryAll<'w, G, I, E>>,
    how: Use,
    want: &[Row],
    log: &Log,
) -> Result<Option<Got>, String>
where
    G: Query,
    I: Query,
    E: Query,
    for<'a> G::Item<'a>: ToRow,
{
    let dense_before = q.iter().is_dense();
    let n = want.len();
    if how == ParForEach {
        q.par_for_each(|x| {
            log.item(x);
        });
        return all(log.0.get().take(), false);
    }
    let it = q.par_iter();
    if it.is_dense() != dense_before || it.is_sparse() == it.is_dense() {
        err!("the parallel iterator is {} but the sequential one is not", if it.is_dense() { "dense" } else { "sparse" });
    }
    match how {
        ForEach => {
            it.for_each(|x| {
                log.item(x);
            });
            return all(log.0.get().take(), false);
        }
        Collect => {
            let rows: Vec<Row> = it.map(|x| log.item(x)).collect();
            return all(rows, dense_before);
        }
        Filter => {
            let rows: Vec<Row> = it.map(|x| log.item(x)).filter(odd).collect();
            let expected = want.iter().filter(|r| odd(r)).count();
            if rows.len() != expected {
                err!("{} items pass the filter instead of {expected}", rows.len());
            }
            return all(log.0.get().take(), false);
        }
        Count => {
            let c = it.map(|x| log.item(x)).count();
            if c != n {
                err!("counts {c} items instead of {n}");
            }
            return all(log.0.get().take(), false);
        }
        Sum => {
            let s: u64 = it.map(|x| log.item(x).iter().map(|c| c.2 & 0xffff).sum::<u64>()).sum();
            let expected: u64 = want.iter().flatten().map(|c| c.2 & 0xffff).sum();
            if s != expected {
                err!("the sum is {s} instead of {expected}");
            }
            return all(log.0.get().take(), false);
        }
        Fold => {
            let rows = it
                .fold(Vec::new, |mut v: Vec<Row>, x| {
                    v.push(log.item(x));
                    v
                })
                .reduce(Vec::new, |mut a, b| {
                    a.extend(b);
                    a
                });
            return all(rows, dense_before);
        }
        FindAny => {
            let found = it.map(|x| log.item(x)).find_any(odd);
            let exists = want.iter().any(odd);
            if found.is_some() != exists || found.is_some_and(|f| !want.contains(&f)) {
                err!("find_any found something else");
            }
            return Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: exists }));
        }
        Any => {
            let found = it.map(|x| log.item(x)).any(|r| odd(&r));
            let exists = want.iter().any(odd);
            if found != exists {
                err!("any is {found}");
            }
            return Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: exists }));
        }
        Panic(k) => {
            if k >= n {
                return Ok(None);
            }
            let bad = want[k].clone();
            let bad = &bad;
            let r = catch_unwind(AssertUnwindSafe(|| {
                it.for_each(|x| {
                    if log.item(x) == *bad {
                        std::panic::resume_unwind(Box::new(Mine));
                    }
                })
            }));
            match r {
                Err(p) if p.is::<Mine>() => {}
                Err(_) => err!("another panic: {}", last_panic()),
                Ok(()) => err!("the panic of the callback is lost"),
            }
            return Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: true }));
        }
        OptLen => {
            match it.opt_len() {
                None => {}
                Some(l) if l == n => {}
                Some(l) => err!("opt_len is {l} instead of {n}"),
            }
            return Ok(Some(Got { rows: Vec::new(), ordered: false, partial: true }));
        }
        While => {
            let (x, y): (Vec<Row>, Vec<Row>) = it.map(|x| log.item(x)).partition(odd);
            let c = want.iter().filter(|r| odd(r)).count();
            if (x.len(), y.len()) != (c, n - c) {
                err!("partitioned into {} and {} items", x.len(), y.len());
            }
            let mut rows = x;
            rows.extend(y);
            return all(rows, false);
        }
        _ => {}
    }
    let ParIter::Dense(d) = it else { return Ok(None) };
    match how {
        Len => {
            if d.len() != n {
                err!("len is {} instead of {n}", d.len());
            }
            if d.opt_len() != Some(n) {
                err!("opt_len is {:?} instead of {n}", d.opt_len());
            }
            Ok(Some(Got { rows: Vec::new(), ordered: false, partial: true }))
        }
        Enumerate => {
            let v: Vec<(usize, Row)> = d.map(|x| log.item(x)).enumerate().collect();
            if v.iter().enumerate().any(|(i, x)| i != x.0) {
                err!("enumerated as {:?}", v.iter().map(|x| x.0).collect::<Vec<_>>());
            }
            all(v.into_iter().map(|x| x.1).collect(), true)
        }
        ZipRange => {
            let v: Vec<(usize, Row)> = (0..n + 1).into_par_iter().zip(d.map(|x| log.item(x))).collect();
            if v.iter().enumerate().any(|(i, x)| i != x.0) {
                err!("zipped with {:?}", v.iter().map(|x| x.0).collect::<Vec<_>>());
            }
            all(v.into_iter().map(|x| x.1).collect(), true)
        }
        ZipSelf => {
            let Some(mut again) = again else { return Ok(None) };
            let ParIter::Dense(e) = again.par_iter() else { err!("the same query is once dense and once sparse") };
            let v: Vec<(Row, Row)> = d.map(|x| log.item(x)).zip(e.map(row)).collect();
            if v.iter().any(|x| x.0 != x.1) {
                err!("zipping a query with itself gives different items: {v:?}");
            }
            all(v.into_iter().map(|x| x.0).collect(), true)
        }
        Rev => {
            let mut v: Vec<Row> = d.map(|x| log.item(x)).rev().collect();
            v.reverse();
            all(v, true)
        }
        MinLen => all(d.map(|x| log.item(x)).with_min_len(2).collect(), true),
        MaxLen => all(d.map(|x| log.item(x)).with_max_len(1).collect(), true),
        Chunks => {
            let v: Vec<Vec<Row>> = d.map(|x| log.item(x)).chunks(2).collect();
            if v.iter().rev().skip(1).any(|c| c.len() != 2) {
                err!("chunks have sizes {:?}", v.iter().map(|c| c.len()).collect::<Vec<_>>());
            }
            all(v.into_iter().flatten().collect(), true)
        }
        Skip => {
            let v: Vec<Row> = d.map(|x| log.item(x)).skip(1).collect();
            if v != want[1.min(n)..] {
                err!("after skipping one, {v:?} are left");
            }
            Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: true }))
        }
        Take => {
            let v: Vec<Row> = d.map(|x| log.item(x)).take(2).collect();
            if v != want[..2.min(n)] {
                err!("the first two are {v:?}");
            }
            Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: true }))
        }
        StepBy => {
            let v: Vec<Row> = d.map(|x| log.item(x)).step_by(2).collect();
            if v != want.iter().step_by(2).cloned().collect::<Vec<_>>() {
                err!("every second one is {v:?}");
            }
            Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: true }))
        }
        FindFirst => {
            let f = d.map(|x| log.item(x)).find_first(odd);
            if f.as_ref() != want.iter().find(|r| odd(r)) {
                err!("find_first found {f:?}");
            }
            Ok(Some(Got { rows: log.0.get().take(), ordered: false, partial: true }))
        }
        IntoVec => {
            let mut v = vec![Row::new(); 3];
            d.map(|x| log.item(x)).collect_into_vec(&mut v);
            all(v, true)
        }
        DenseForEach => {
            d.for_each(|x| {
                log.item(x);
            });
            all(log.0.get().take(), false)
        }
        DenseCollect => all(d.map(|x| log.item(x)).collect(), true),
        _ => Ok(None),
    }
}

/// One execution of one use of one query.
fn execution<'w, G, I, E>(
    run: &mut Run,
    w: &'w W,
    make: &dyn Fn(&'w World) -> QueryAll<'w, G, I, E>,
    twice: bool,
    how: Use,
    threads: usize,
    steals: usize,
) -> Result<bool, String>
where
    G: Query,
    I: Query,
    E: Query,
    for<'a> G::Item<'a>: ToRow,
{
    w.restore();
    let want: Vec<Row> = make(&w.w).iter().map(row).collect();
    w.restore();
    let before = w.values();
    let injected = run.choose(2) == 1;
    rayon_core::configure(threads, steals, injected);
    let log = Log(One(RefCell::new(Vec::new())));
    let out = RefCell::new(None);
    let (out_ref, log_ref, want_ref) = (&out, &log, &want[..]);
    let body: Box<dyn FnOnce() + '_> = Box::new(move || {
        let again = twice.then(|| make(&w.w));
        *out_ref.borrow_mut() = Some(consume(make(&w.w), again, how, want_ref, log_ref));
    });
    let Ok(panics) = run.threads(vec![body]) else {
        return Ok(true);
    };
    if panics.iter().any(|p| p.is_some()) {
        err!("panicked: {}", last_panic());
    }
    let Some(got) = out.into_inner().unwrap_or(Ok(None))? else { return Ok(false) };
    let mut seen = BTreeSet::new();
    for c in got.rows.iter().flatten().filter(|c| c.0.is_uppercase()) {
        if !seen.insert(c.1) {
            err!("two consumers got exclusive access to the same value: {:?}", got.rows);
        }
    }
    let (mut a, mut b) = (got.rows.clone(), want.clone());
    if !got.ordered {
        a.sort();
        b.sort();
    }
    if got.partial {
        // Each at most once.
        let mut rest = b.clone();
        for x in &a {
            match rest.iter().position(|y| y == x) {
                Some(i) => {
                    rest.swap_remove(i);
                }
                None => err!("yielded {x:?} which the sequential iteration does not yield, or once more than it: {b:?}"),
            }
        }
    } else if a != b {
        err!("yielded {a:?} instead of {b:?}");
    }
    // What was written, and all else.
    let mut expected = before;
    for c in got.rows.iter().flatten().filter(|c| c.0.is_uppercase()) {
        match expected.iter_mut().find(|e| **e == (c.0, c.2)) {
            Some(e) => e.1 += 100,
            None => err!("{c:?} is not a value of the world"),
        }
    }
    expected.sort_unstable();
    let after = w.values();
    if expected != after {
        err!("the values are {after:?} instead of {expected:?}");
    }
    Ok(true)
}

struct Q {
    name: &'static str,
    run: fn(&mut Run, &W, Use, usize, usize) -> Result<bool, String>,
}

macro_rules! queries {
    ($(($twice:expr, $G:ty, $I:ty, $E:ty)),* $(,)?) => {
        static QUERIES: &[Q] = &[
            $(Q {
                name: concat!(stringify!($G), " include ", stringify!($I), " exclude ", stringify!($E)),
                run: |run, w, how, threads, steals| {
                    execution::<$G, $I, $E>(run, w, &|w| w.query_all::<$G>().include::<$I>().exclude::<$E>(), $twice, how, threads, steals)
                },
            }),*
        ];
    };
}

queries!(
    (true, (Entity, &A), (), ()),
    (true, (Entity, &A, &B), (), ()),
    (true, (Entity, &A, &B), (), &C),
    (true, (Entity, &A, &B, ), (), (&C,)),
    (false, (&mut A, &mut B), (), ()),
    (false, (&mut A, &B), (), &C),
    (false, (Entity, &mut A), &B, ()),
    (false, (Entity, &mut C), &A, &B),
    (true, (Entity, &B), (&A, &C), ()),
    (true, (Entity,), (&A, &B), ()),
    (true, (Entity,), (&A, &B), &C),
    (true, (Entity,), &A, ()),
    (true, (Entity,), (), ()),
    (true, (Entity,), (), (&A, &B)),
    (true, (Entity, Option<&A>), (), ()),
    (false, (Entity, Option<&mut C>), (&A, &B), ()),
    (false, (&mut B, &mut C, Option<&A>), (), ()),
    (false, (&A, &mut B, &mut C), (), ()),
    (true, (Entity, &A), (), (&B, &C)),
    (true, (Entity, &C, &B), (), &A),
    (true, &A, (), ()),
    (false, &mut B, (), &A),
    (true, (), (&A, &B), ()),
    (true, Entity, &B, &A),
);

struct C11;

struct Task {
    layout: usize,
    parts: Vec<u8>,
    threads: Vec<usize>,
    steals: usize,
    uses: &'static [Use],
}

fn all_parts(n: usize, kinds: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|p| kinds.iter().map(move |k| [p.clone(), vec![*k]].concat())).collect();
    }
    out
}

fn tasks(tier: Tier) -> Vec<Task> {
    let mut v = Vec::new();
    let mut add = |parts: Vec<u8>, threads: &[usize], steals: usize, uses: &'static [Use]| {
        for layout in 0..LAYOUTS {
            v.push(Task { layout, parts: parts.clone(), threads: threads.to_vec(), steals, uses });
        }
    };
    let every: Vec<u8> = (0..8).collect();
    for n in 0..=2 {
        for p in all_parts(n, &every) {
            add(p, &[1, 2, 3], 2, USES);
        }
    }
    let thorough = tier == Tier::Thorough;
    for p in all_parts(3, if thorough { &[0, 1, 2, 3, 5, 6, 7] } else { &[1, 2, 3, 7] }) {
        add(p, &[2, 4], 2, USES);
    }
    for p in all_parts(4, if thorough { &[1, 3, 7] } else { &[3, 7] }) {
        add(p, &[2, 4], if thorough { 3 } else { 2 }, USES);
    }
    for p in [vec![3, 7, 3, 7, 3], vec![3, 3, 3, 3, 3, 3], vec![7, 7, 3, 3, 3, 1, 2], vec![3; MAX]] {
        add(p, if thorough { &[1, 2, 3, 4, 8] } else { &[1, 3, 8] }, if thorough { 2 } else { 1 }, USES);
    }
    if thorough {
        for p in all_parts(5, &[3, 7]) {
            add(p, &[2, 5], 2, USES);
        }
    }
    v
}

fn show_use(u: Use) -> String {
    format!("{u:?}")
}

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }

    fn level(&self) -> &'static str {
        "exploration"
    }

    fn explore(&self, ctx: &Ctx) {
        let tasks = tasks(ctx.tier);
        ctx.add("worlds", tasks.len() as u64);
        let beat: &'static Ctx = unsafe { &*(ctx as *const Ctx) };
        let stride = (tasks.len() / 10).max(1);
        ctx.parallel(tasks.len(), |i| {
            let t = &tasks[i];
            sched::set_heartbeat(Some(Box::new(|| {
                beat.alive();
                !beat.stopped()
            })));
            let mut w = std::mem::ManuallyDrop::new(W::new(t.layout, &t.parts));
            let (mut joins, mut stolen) = (0, 0);
            for (qi, q) in QUERIES.iter().enumerate() {
                for how in t.uses {
                    for threads in &t.threads {
                        let case = format!("{}|{}|{qi}|{}|{threads},{}|", t.layout, show_parts(&t.parts), show_use(*how), t.steals);
                        ctx.begin(&case);
                        let mut applies = true;
                        let o = sched::explore(Limits { weak: 1, executions: 500_000, ..Limits::default() }, |run| {
                            let r = (q.run)(run, &w, *how, *threads, t.steals);
                            applies &= !matches!(r, Ok(false));
                            let c = rayon_core::counts();
                            joins += c.0;
                            stolen += c.1;
                            r.map(|_| ())
                        });
                        if !applies && o.violation.is_none() {
                            break;
                        }
                        account(ctx, &o);
                        ctx.add("configurations", 1);
                        ctx.add("distinct_nontrivial", o.executions);
                        if !o.complete && o.violation.is_none() {
                            ctx.cap(&format!("{case} has executions that were not explored"));
                        }
                        if let Some((p, m)) = &o.violation {
                            ctx.violation(&format!("{case}{}", show_path(p)), m);
                            w = std::mem::ManuallyDrop::new(W::new(t.layout, &t.parts));
                        }
                        if i % stride == 0 && qi % 5 == 1 && *how == Collect && *threads != 1 {
                            ctx.sample(format!("{}: {} executions", self.explain(&case), o.executions));
                        }
                        if ctx.stopped() {
                            break;
                        }
                    }
                }
            }
            ctx.add("joins", joins);
            ctx.add("stolen_joins", stolen);
            drop(std::mem::ManuallyDrop::into_inner(w));
            sched::set_heartbeat(None);
            ctx.end();
        });
        ctx.note("rule", "evaluations counts executions of a consumer; distinct_nontrivial counts those with different choices of which join is stolen and of the order of all items over the threads. Every query of a table, on every world of up to two entities with any of three components (and larger ones of few kinds), under four layouts, consumed in every way of a table, for several numbers of threads");
    }

    fn replay(&self, case: &str) -> Result<(), String> {
        let f: Vec<&str> = case.split('|').collect();
        let [layout, parts, qi, how, bounds, path] = f[..] else { return Ok(()) };
        let parts: Vec<u8> = parts.split(',').filter_map(|x| x.parse().ok()).collect();
        let w = std::mem::ManuallyDrop::new(W::new(layout.parse().unwrap_or(0), &parts));
        let Some(how) = USES.iter().find(|u| show_use(**u) == how) else { return Ok(()) };
        let b: Vec<usize> = bounds.split(',').filter_map(|x| x.parse().ok()).collect();
        let Some(q) = QUERIES.get(qi.parse::<usize>().unwrap_or(0)) else { return Ok(()) };
        let limits = Limits { weak: 1, ..Limits::default() };
        if path.is_empty() {
            let o = sched::explore(limits, |run| (q.run)(run, &w, *how, b[0], b[1]).map(|_| ()));
            return o.violation.map_or(Ok(()), |v| Err(v.1));
        }
        sched::replay(limits, &read_path(path), |run| (q.run)(run, &w, *how, b[0], b[1]).map(|_| ()))
    }

    fn explain(&self, case: &str) -> String {
        let f: Vec<&str> = case.split('|').collect();
        let [layout, parts, qi, how, bounds, path] = f[..] else { return case.to_string() };
        let names: Vec<String> = parts
            .split(',')
            .filter_map(|x| x.parse::<u8>().ok())
            .map(|p| ["A", "B", "C"].iter().enumerate().filter(|(i, _)| p >> i & 1 == 1).map(|x| *x.1).collect())
            .map(|s: String| if s.is_empty() { "-".into() } else { s })
            .collect();
        let b: Vec<&str> = bounds.split(',').collect();
        format!(
            "layout {layout}, entities with [{}], {} on query {}, {} threads, at most {} steals, schedule {path}",
            names.join(" "),
            how,
            QUERIES[qi.parse::<usize>().unwrap_or(0)].name,
            b[0],
            b[1]
        )
    }

    fn assumptions(&self) -> Vec<String> {
        vec![
            "rayon itself is the published one; its thread pool (rayon-core) is a stand-in in which the second half of a join is either run after the first one by the same thread, or stolen and run concurrently".into(),
            "threads are interleaved between items and at accesses to atomics of sparsey".into(),
        ]
    }
}

fn show_parts(p: &[u8]) -> String {
    p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn main() {
    let _ = W::new(0, &[]).parts;
    engine::runner::main(&C11)
}
