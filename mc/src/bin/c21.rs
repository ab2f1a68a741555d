//! Population size does not matter: the same operations at every population size at which some
//! storage may grow, compared with a map.

use engine::alloc;
use engine::ledger;
use engine::runner::{last_panic, Check, Ctx, Tier};
use mc::comps::Comp;
use mc::exec::{begin_run, entity, Exec};
use mc::many::all_kinds;
use mc::system::guarded;
use mc::{err, for_mask};
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::entity::{SparseVec, SparseVecSlot, Version};
use sparsey::{Entity, World};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- component types

const MAGIC: u32 = 0x00c2_1c21;

/// Tracked.
pub struct A(u32, u32);

impl Comp for A {
    const I: usize = 0;
    const NAME: &'static str = "A";
    fn make() -> (Self, u32) {
        let t = ledger::issue();
        (Self(t, t ^ MAGIC), t)
    }
    fn val(&self) -> u32 {
        if self.1 != self.0 ^ MAGIC || !ledger::is_live(self.0) {
            ledger::error(format!("an A reads as garbage or is visible after it was dropped ({:#x} {:#x})", self.0, self.1));
        }
        self.0
    }
}

impl Drop for A {
    fn drop(&mut self) {
        ledger::on_drop(self.0);
    }
}

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
}

fn next() -> u32 {
    let n = NEXT.get();
    NEXT.set(n + 1);
    n
}

/// Wider than a handle, no destructor.
pub struct B([u64; 3]);

impl Comp for B {
    const I: usize = 1;
    const NAME: &'static str = "B";
    fn make() -> (Self, u32) {
        let n = next();
        (Self([u64::from(n), !u64::from(n), u64::from(n) << 20]), n)
    }
    fn val(&self) -> u32 {
        let n = self.0[0];
        if self.0 != [n, !n, n << 20] {
            ledger::error(format!("a B reads as garbage ({:x?})", self.0));
        }
        n as u32
    }
}

/// One byte.
pub struct C(u8);

impl Comp for C {
    const I: usize = 2;
    const NAME: &'static str = "C";
    fn make() -> (Self, u32) {
        let n = next() % 251;
        (Self(n as u8), n)
    }
    fn val(&self) -> u32 {
        u32::from(self.0)
    }
}

/// Zero-sized, counted.
pub struct D(());

impl Comp for D {
    const I: usize = 3;
    const NAME: &'static str = "D";
    fn make() -> (Self, u32) {
        ledger::issue_zst();
        (Self(()), 0)
    }
    fn val(&self) -> u32 {
        0
    }
}

impl Drop for D {
    fn drop(&mut self) {
        ledger::on_drop_zst();
    }
}

const LAYOUTS: [(&str, &[u8]); 5] =
    [("no groups", &[]), ("(A B)", &[3]), ("(A B), (A B C)", &[3, 7]), ("(A B), (C D)", &[3, 12]), ("(C D), (A B C D)", &[12, 15])];

fn layout(k: usize) -> GroupLayout {
    let data = |i: usize| match i {
        0 => ComponentData::new::<A>(),
        1 => ComponentData::new::<B>(),
        2 => ComponentData::new::<C>(),
        _ => ComponentData::new::<D>(),
    };
    let mut l = GroupLayout::default();
    for m in LAYOUTS[k].1 {
        let v: Vec<ComponentData> = (0..4).filter(|i| m >> i & 1 == 1).map(data).collect();
        l.add_group_dyn(&v);
    }
    l
}

/// Components of the entities of a population, in turns.
const PATTERNS: [(&str, &[u8]); 3] =
    [("all components", &[15]), ("various components", &[15, 3, 8, 7, 0, 12]), ("two kinds of entities", &[7, 3])];

// ---------------------------------------------------------------- executor

#[derive(Default, Clone, Copy)]
struct Mul(u64);

impl Hasher for Mul {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(u64::from(*x));
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(u64::from(x));
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(29) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

type Map<V> = HashMap<(u32, u32), V, BuildHasherDefault<Mul>>;
type Set = HashSet<(u32, u32), BuildHasherDefault<Mul>>;

fn k(e: Entity) -> (u32, u32) {
    (e.index, e.version.0.get())
}

type Row = [Option<u32>; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create(u8),
    /// Components, number, whether the iterator knows its length.
    Extend(u8, u32, bool),
    /// Deferred creations followed by a maintain.
    Deferred(u32),
    /// Positions are those of handles in the order in which they were issued.
    Insert(u32, u8),
    Remove(u32, u8),
    Delete(u32, u8),
    Destroy(u32),
    Clear,
    Reset,
    Layout(u8),
}

const NEWEST: u32 = u32::MAX;

struct World1 {
    w: World,
    live: Map<(Row, Cell<u32>)>,
    issued: Vec<Entity>,
    ever: Set,
    stamp: u32,
    grouped: usize,
    steps: u64,
}

macro_rules! op_create {
    (($w:expr, $row:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        $(let ($v, x) = <$T as Comp>::make(); $row[$T::I] = Some(x);)*
        alloc::tagged(|| $w.create(($($v,)*)))
    }};
}
macro_rules! op_insert {
    (($w:expr, $e:ident, $row:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        $(let ($v, x) = <$T as Comp>::make(); $row[$T::I] = Some(x);)*
        alloc::tagged(|| $w.insert($e, ($($v,)*)))
    }};
}
macro_rules! op_remove {
    (($w:expr, $e:ident, $out:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        let r = alloc::tagged(|| $w.remove::<($($T,)*)>($e));
        $($out[$T::I] = r.$i.as_ref().map(|x| x.val());)*
    }};
}
macro_rules! op_delete {
    (($w:expr, $e:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        alloc::tagged(|| $w.delete::<($($T,)*)>($e));
    }};
}
macro_rules! op_extend {
    (($w:expr, $n:ident, $exact:ident, $rows:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        let mut left = $n;
        let items = std::iter::from_fn(|| {
            if left == 0 {
                return None;
            }
            left -= 1;
            alloc::untagged(|| {
                let mut row: Row = [None; 4];
                $(let ($v, x) = <$T as Comp>::make(); row[$T::I] = Some(x);)*
                $rows.push(row);
                Some(($($v,)*))
            })
        });
        if $exact {
            let mut items = items;
            let items = (0..$n).map(move |_| items.next().unwrap());
            alloc::tagged(|| { let s = $w.extend(items); alloc::untagged(|| s.to_vec()) })
        } else {
            alloc::tagged(|| { let s = $w.extend(items); alloc::untagged(|| s.to_vec()) })
        }
    }};
}

impl World1 {
    fn new(grouped: usize) -> Self {
        let w = alloc::tagged(|| {
            let mut b = World::builder();
            b.set_layout(layout(grouped));
            b.register::<A>().register::<B>().register::<C>().register::<D>();
            b.build()
        });
        Self { w, live: Map::default(), issued: Vec::new(), ever: Set::default(), stamp: 0, grouped, steps: 0 }
    }

    fn issue(&mut self, e: Entity, row: Option<Row>) -> Result<(), String> {
        if !self.ever.insert(k(e)) {
            err!("the handle {e:?} was given out a second time");
        }
        self.issued.push(e);
        if let Some(row) = row {
            self.live.insert(k(e), (row, Cell::new(0)));
        }
        Ok(())
    }

    fn at(&self, pos: u32) -> Option<Entity> {
        if pos == NEWEST {
            return self.issued.last().copied();
        }
        self.issued.get(pos as usize).copied()
    }

    fn apply(&mut self, op: Op) -> Result<(), String> {
        self.steps += 1;
        match op {
            Op::Create(m) => {
                let mut row: Row = [None; 4];
                let e = if m == 0 { alloc::tagged(|| self.w.create(())) } else { for_mask!(m, op_create, self.w, row) };
                self.issue(e, Some(row))?;
            }
            Op::Extend(m, n, exact) => {
                let mut rows = Vec::new();
                let es = if m == 0 {
                    rows = vec![[None; 4]; n as usize];
                    alloc::tagged(|| { let s = self.w.extend((0..n).map(|_| ())); alloc::untagged(|| s.to_vec()) })
                } else {
                    for_mask!(m, op_extend, self.w, n, exact, rows)
                };
                if es.len() != n as usize || rows.len() != n as usize {
                    err!("{op:?} returned {} handles for {n} values ({} taken)", es.len(), rows.len());
                }
                for (e, row) in es.into_iter().zip(rows) {
                    self.issue(e, Some(row))?;
                }
            }
            Op::Deferred(n) => {
                let es: Vec<Entity> = (0..n).map(|_| self.w.create_atomic()).collect();
                for e in &es {
                    if self.w.contains_entity(*e) {
                        err!("{e:?} is alive before the maintain");
                    }
                }
                alloc::tagged(|| self.w.maintain());
                for e in es {
                    self.issue(e, Some([None; 4]))?;
                }
            }
            Op::Insert(p, m) => {
                let Some(e) = self.at(p) else { return Ok(()) };
                let mut row: Row = [None; 4];
                let r = for_mask!(m, op_insert, self.w, e, row);
                let alive = self.live.get_mut(&k(e));
                if r != alive.is_some() {
                    err!("{op:?} ({e:?}) returned {r}");
                }
                if let Some((old, _)) = alive {
                    for i in 0..4 {
                        old[i] = row[i].or(old[i]);
                    }
                }
            }
            Op::Remove(p, m) => {
                let Some(e) = self.at(p) else { return Ok(()) };
                let mut got: Row = [None; 4];
                for_mask!(m, op_remove, self.w, e, got);
                let mut want: Row = [None; 4];
                if let Some((row, _)) = self.live.get_mut(&k(e)) {
                    for i in 0..4 {
                        if m >> i & 1 == 1 {
                            want[i] = row[i].take();
                        }
                    }
                }
                if got != want {
                    err!("{op:?} ({e:?}) returned {got:?} instead of {want:?}");
                }
            }
            Op::Delete(p, m) => {
                let Some(e) = self.at(p) else { return Ok(()) };
                for_mask!(m, op_delete, self.w, e);
                if let Some((row, _)) = self.live.get_mut(&k(e)) {
                    for i in 0..4 {
                        if m >> i & 1 == 1 {
                            row[i] = None;
                        }
                    }
                }
            }
            Op::Destroy(p) => {
                let Some(e) = self.at(p) else { return Ok(()) };
                let r = alloc::tagged(|| self.w.destroy(e));
                if r != self.live.remove(&k(e)).is_some() {
                    err!("{op:?} ({e:?}) returned {r}");
                }
            }
            Op::Clear => {
                alloc::tagged(|| self.w.clear());
                self.live.clear();
            }
            Op::Reset => {
                alloc::tagged(|| self.w.reset());
                self.live.clear();
                self.issued.clear();
                self.ever.clear();
            }
            Op::Layout(n) => {
                alloc::tagged(|| self.w.set_layout(&layout(n as usize)));
                self.grouped = n as usize;
            }
        }
        Exec::side_errors()
    }

    /// Visits an entity that something lists; every entity may be listed once.
    fn visit(&self, e: Entity, what: &str) -> Result<&Row, String> {
        match self.live.get(&k(e)) {
            None => Err(format!("{what} lists {e:?}, which is not alive")),
            Some((row, stamp)) => {
                if stamp.replace(self.stamp) == self.stamp {
                    err!("{what} lists {e:?} twice");
                }
                Ok(row)
            }
        }
    }

    fn view<T: Comp>(&mut self) -> Result<usize, String> {
        self.stamp += 1;
        let what = format!("the view of {}", T::NAME);
        let v = self.w.borrow::<T>();
        let (es, vs) = (v.entities(), v.as_slice());
        let n = self.live.values().filter(|r| r.0[T::I].is_some()).count();
        if es.len() != n || vs.len() != n || v.len() != n || v.is_empty() != (n == 0) {
            err!("{what} has {} entities, {} values and the length {} instead of {n}", es.len(), vs.len(), v.len());
        }
        for (i, e) in es.iter().enumerate() {
            let row = self.visit(*e, &what)?;
            let got = [Some(vs[i].val()), v.get(*e).map(Comp::val)];
            if got != [row[T::I]; 2] {
                err!("{what}: position {i} is {e:?} with {got:?}, expected {:?}", row[T::I]);
            }
        }
        Ok(n)
    }

    /// Everything, for every entity.
    fn check(&mut self) -> Result<(), String> {
        self.stamp += 1;
        let es = self.w.entities();
        if es.len() != self.live.len() || self.w.is_empty() != self.live.is_empty() {
            err!("the world lists {} entities instead of {}", es.len(), self.live.len());
        }
        for e in es {
            self.visit(*e, "the world")?;
        }
        for e in &self.issued {
            if self.w.contains_entity(*e) != self.live.contains_key(&k(*e)) {
                err!("{e:?}: alive is {}", self.w.contains_entity(*e));
            }
        }
        self.view::<A>()?;
        self.view::<B>()?;
        self.view::<C>()?;
        self.view::<D>()?;

        let grouped = |m: u8| LAYOUTS[self.grouped].1.contains(&m);
        macro_rules! query {
            ($name:literal, $in:literal, $out:literal, $q:expr, |$item:pat_param| $e:expr, $got:expr) => {{
                self.stamp += 1;
                let n = self
                    .live
                    .values()
                    .filter(|r| (0..4).all(|i| ($in >> i & 1 == 0 || r.0[i].is_some()) && ($out >> i & 1 == 0 || r.0[i].is_none())))
                    .count();
                let mut seen = 0;
                for $item in $q.iter() {
                    seen += 1;
                    let row = self.visit($e, $name)?;
                    let got: Row = $got;
                    if (0..4).any(|i| $in >> i & 1 == 1 && got[i] != row[i]) {
                        err!("{} yields {:?} with {got:?}, expected {row:?}", $name, $e);
                    }
                }
                if seen != n {
                    err!("{} yields {seen} items instead of {n}", $name);
                }
                let mut again = 0;
                $q.for_each(|_| again += 1);
                if again != n {
                    err!("for_each of {} yields {again} items instead of {n}", $name);
                }
            }};
        }
        query!("(&A, &B)", 3, 0, self.w.query_all::<(Entity, &A, &B)>(), |(e, a, b)| e, [Some(a.val()), Some(b.val()), None, None]);
        query!("(&A, &B, &C)", 7, 0, self.w.query_all::<(Entity, &A, &B, &C)>(), |(e, a, b, c)| e, [
            Some(a.val()),
            Some(b.val()),
            Some(c.val()),
            None
        ]);
        query!("(&C, &D)", 12, 0, self.w.query_all::<(Entity, &C, &D)>(), |(e, c, d)| e, [
            None,
            None,
            Some(c.val()),
            Some(d.val())
        ]);
        query!(
            "(&A, &B) without C",
            3,
            4,
            self.w.query_all::<(Entity, &A, &B)>().exclude::<&C>(),
            |(e, a, b)| e,
            [Some(a.val()), Some(b.val()), None, None]
        );
        self.stamp += 1;
        let mut seen = 0;
        for (e, a, c) in self.w.query_all::<(Entity, Option<&A>, &C)>().iter() {
            seen += 1;
            let row = self.visit(e, "(Option<&A>, &C)")?;
            if a.map(Comp::val) != row[0] || Some(c.val()) != row[2] {
                err!("(Option<&A>, &C) yields wrong data for {e:?}");
            }
        }
        if seen != self.live.values().filter(|r| r.0[2].is_some()).count() {
            err!("(Option<&A>, &C) yields {seen} items");
        }
        // Slices of the groups.
        if grouped(3) {
            let mut q = self.w.query_all::<(Entity, &A, &B)>();
            let Some((es, a, b)) = q.slice() else { err!("the group (A B) has no slices") };
            let n = self.live.values().filter(|r| r.0[0].is_some() && r.0[1].is_some()).count();
            if es.len() != n || a.len() != n || b.len() != n {
                err!("the slices of (A B) have the lengths {} {} {} instead of {n}", es.len(), a.len(), b.len());
            }
            self.stamp += 1;
            for i in 0..n {
                let row = self.visit(es[i], "the slice of (A B)")?;
                if row[0] != Some(a[i].val()) || row[1] != Some(b[i].val()) {
                    err!("the slices of (A B) have wrong values for {:?}", es[i]);
                }
            }
        }
        if grouped(12) {
            let mut q = self.w.query_all::<(&C, &D, Entity)>();
            let Some((c, d, es)) = q.slice() else { err!("the group (C D) has no slices") };
            let n = self.live.values().filter(|r| r.0[2].is_some() && r.0[3].is_some()).count();
            if es.len() != n || c.len() != n || d.len() != n {
                err!("the slices of (C D) have the lengths {} {} {} instead of {n}", es.len(), c.len(), d.len());
            }
            for i in 0..n {
                if self.live.get(&k(es[i])).is_none_or(|r| r.0[2] != Some(c[i].val())) {
                    err!("the slices of (C D) have wrong values for {:?}", es[i]);
                }
            }
        }
        Exec::side_errors()
    }

    fn finish(self) -> Result<(), String> {
        let Self { w, .. } = self;
        alloc::tagged(|| drop(w));
        Exec::side_errors()?;
        if ledger::live_count() != 0 || ledger::live_zst() != 0 {
            err!("{} values were never dropped although the world was", ledger::live_count() as i64 + ledger::live_zst());
        }
        Exec::check_balance()
    }

    /// A population of `n` entities.
    fn populate(&mut self, n: u32, how: usize, pattern: usize) -> Result<(), String> {
        let p = PATTERNS[pattern].1;
        match how {
            0 => (0..n).try_for_each(|i| self.apply(Op::Create(p[i as usize % p.len()]))),
            1 => {
                // In batches.
                let each = (n as usize).div_ceil(p.len()).max(1) as u32;
                let mut left = n;
                for (i, m) in p.iter().enumerate() {
                    let b = each.min(left);
                    left -= b;
                    self.apply(Op::Extend(*m, b, i % 2 == 0))?;
                }
                Ok(())
            }
            _ => {
                self.apply(Op::Deferred(n))?;
                for i in 0..n {
                    let m = p[i as usize % p.len()];
                    if m != 0 {
                        self.apply(Op::Insert(i, m))?;
                    }
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- parts

#[derive(Clone, PartialEq, Eq, Debug)]
enum Case {
    /// Layout, way of creation, pattern, largest size: grows one by one, checked at every size.
    Grow(usize, usize, usize, u32),
    /// Layout, way, pattern, population, operations.
    Seq(usize, usize, usize, u32, Vec<Op>),
    /// Layout, number of entities, the order of indexes that get their first components.
    High(usize, u32, Vec<u32>),
    /// Entities created, how many of them are destroyed, in which order, how many deferred creations follow,
    /// how many other ones.
    Recycle(u32, u32, bool, u32, u32),
    /// Existing entities and the size of a batch, layout.
    Batch(u32, u32, usize),
    /// Number of registered component types, and how many of them at once.
    Types(usize, bool),
    /// First index of a sparse vector, and a range of second ones.
    Vector(Option<u32>, u32, u32),
}

fn grow(l: usize, how: usize, pattern: usize, max: u32, alive: &dyn Fn()) -> Result<u64, String> {
    let mut x = World1::new(l);
    let p = PATTERNS[pattern].1;
    x.check()?;
    for n in 1..=max {
        let m = p[(n - 1) as usize % p.len()];
        match how {
            0 => x.apply(Op::Create(m))?,
            1 => x.apply(Op::Extend(m, 1, n % 2 == 0))?,
            _ => {
                x.apply(Op::Deferred(1))?;
                if m != 0 {
                    x.apply(Op::Insert(n - 1, m))?;
                }
            }
        }
        let near = (0..24).any(|s| n.abs_diff(1 << s) <= 1);
        if n <= 320 || near {
            alive();
            x.check().map_err(|e| format!("with {n} entities: {e}"))?;
        }
    }
    // Shrinks to nothing, from both ends.
    let (mut lo, mut hi) = (0, max);
    while lo < hi {
        let at = if (hi - lo) % 2 == 0 { lo } else { hi - 1 };
        if at == lo { lo += 1 } else { hi -= 1 }
        x.apply(Op::Destroy(at))?;
        let n = hi - lo;
        if n <= 64 || (0..24).any(|s| n.abs_diff(1 << s) <= 1) {
            alive();
            x.check().map_err(|e| format!("shrunk to {n} entities: {e}"))?;
        }
    }
    let s = x.steps;
    x.finish()?;
    Ok(s)
}

fn seq(l: usize, how: usize, pattern: usize, n: u32, ops: &[Op]) -> Result<u64, String> {
    let mut x = World1::new(l);
    x.populate(n, how, pattern)?;
    if ops.is_empty() {
        x.check()?;
    }
    for (i, op) in ops.iter().enumerate() {
        x.apply(*op).map_err(|e| format!("operation {}: {e}", i + 1))?;
    }
    x.check()?;
    let s = x.steps;
    x.finish()?;
    Ok(s)
}

fn high(l: usize, n: u32, order: &[u32]) -> Result<u64, String> {
    let mut x = World1::new(l);
    x.apply(Op::Deferred(n))?;
    for (i, p) in order.iter().enumerate() {
        x.apply(Op::Insert(*p, 15))?;
        // Only what has components is looked at, because there are many entities.
        for q in &order[..=i] {
            let e = x.issued[*q as usize];
            let want = x.live.get(&k(e)).map(|r| r.0);
            let got = x.w.query_one::<(&A, &B, &C, &D)>().get(e).map(|(a, b, c, d)| [Some(a.val()), Some(b.val()), Some(c.val()), Some(d.val())]);
            if got != want {
                err!("entity {q} has {got:?} instead of {want:?} after insertions at {:?}", &order[..=i]);
            }
        }
        let last = x.issued.len() as u32 - 1;
        for q in [p.wrapping_sub(1), p + 1, p / 2, last] {
            let Some(e) = x.issued.get(q as usize) else { continue };
            let want = x.live.get(&k(*e)).is_some_and(|r| r.0[0].is_some());
            let v = x.w.borrow::<A>();
            if v.contains(*e) != want || v.get(*e).is_some() != want {
                err!("entity {q}: has a component is {} after insertions at {:?}", v.contains(*e), &order[..=i]);
            }
        }
        let v = x.w.borrow::<B>();
        if v.len() != i + 1 || v.entities().len() != i + 1 || !v.entities().contains(&x.issued[*p as usize]) {
            err!("the view lists {:?} after insertions at {:?}", v.entities(), &order[..=i]);
        }
        if x.w.query_all::<(&A, &B)>().iter().count() != i + 1 {
            err!("wrong number of items after insertions at {:?}", &order[..=i]);
        }
    }
    for (i, p) in order.iter().enumerate() {
        if i % 2 == 0 {
            x.apply(Op::Destroy(*p))?;
        } else {
            x.apply(Op::Remove(*p, 15))?;
        }
        let left: BTreeSet<Entity> = order[i + 1..].iter().map(|q| x.issued[*q as usize]).collect();
        let listed: BTreeSet<Entity> = x.w.borrow::<C>().entities().iter().copied().collect();
        if left != listed {
            err!("after {} removals: {listed:?} is listed instead of {left:?}", i + 1);
        }
    }
    let s = x.steps;
    x.finish()?;
    Ok(s)
}

fn recycle(n: u32, m: u32, forward: bool, deferred: u32, direct: u32) -> Result<u64, String> {
    let mut x = World1::new(1);
    for i in 0..n {
        x.apply(Op::Create(if i % 3 == 0 { 0 } else { 3 }))?;
    }
    for i in 0..m {
        x.apply(Op::Destroy(if forward { i } else { n - 1 - i }))?;
    }
    // Deferred creations with other creations in between, before the maintain.
    let mut pending = Vec::new();
    for _ in 0..deferred {
        let e = x.w.create_atomic();
        x.issue(e, None)?;
        pending.push(e);
    }
    for i in 0..direct {
        x.apply(Op::Create(if i % 2 == 0 { 3 } else { 1 }))?;
    }
    for e in &pending {
        if x.w.contains_entity(*e) {
            err!("{e:?} is alive before the maintain");
        }
    }
    x.check()?;
    alloc::tagged(|| x.w.maintain());
    for e in &pending {
        x.live.insert(k(*e), ([None; 4], Cell::new(0)));
    }
    x.check()?;
    for i in 0..n.min(4) {
        x.apply(Op::Insert(i * n / 4, 3))?;
    }
    x.apply(Op::Create(3))?;
    x.check()?;
    let s = x.steps;
    x.finish()?;
    Ok(s)
}

fn batch(n: u32, b: u32, l: usize) -> Result<u64, String> {
    let mut x = World1::new(l);
    x.populate(n, 0, 1)?;
    x.apply(Op::Extend(7, b, true))?;
    x.check()?;
    x.apply(Op::Extend(12, b, false))?;
    x.apply(Op::Extend(3, 2, true))?;
    x.check()?;
    let s = x.steps;
    x.finish()?;
    Ok(s)
}

fn types(n: usize, builder: bool) -> Result<u64, String> {
    let kinds = &all_kinds()[..n];
    let mut w = alloc::tagged(|| {
        let mut b = World::builder();
        b.add_group::<(A, B)>();
        if builder {
            for x in kinds {
                b.register_dyn((x.3)());
            }
        }
        b.build()
    });
    let mut steps = 0;
    let e = alloc::tagged(|| w.create(()));
    let f = alloc::tagged(|| w.create((A::make().0, B::make().0)));
    for (i, x) in kinds.iter().enumerate() {
        if !builder {
            if !alloc::tagged(|| (x.0)(&mut w)) {
                err!("type {i} was reported as registered already");
            }
        }
        if alloc::tagged(|| (x.0)(&mut w)) || alloc::tagged(|| w.register_dyn((x.3)())) {
            err!("type {i} was registered twice");
        }
        alloc::tagged(|| (x.1)(&mut w, e));
        if i % 2 == 0 {
            alloc::tagged(|| (x.1)(&mut w, f));
        }
        steps += 4;
        for (j, y) in kinds.iter().enumerate().take(i + 1) {
            let want = [Some(j as u32), (j % 2 == 0).then_some(j as u32)];
            let got = [(y.2)(&w, e), (y.2)(&w, f)];
            if want != got || !w.is_registered_dyn((y.3)().type_id()) {
                err!("with {} types: type {j} has the values {got:?} instead of {want:?}", i + 1);
            }
        }
    }
    // A change of the layout keeps them all.
    alloc::tagged(|| w.set_layout(&layout(3)));
    for (j, y) in kinds.iter().enumerate() {
        if (y.2)(&w, e) != Some(j as u32) {
            err!("after a change of the layout: type {j} has the value {:?}", (y.2)(&w, e));
        }
    }
    if !alloc::tagged(|| w.destroy(e)) {
        err!("cannot destroy");
    }
    for (j, y) in kinds.iter().enumerate() {
        let want = (j % 2 == 0).then_some(j as u32);
        if (y.2)(&w, e).is_some() || (y.2)(&w, f) != want {
            err!("after the other entity was destroyed: type {j} has {:?} instead of {want:?}", (y.2)(&w, f));
        }
    }
    // Clearing and resetting forgets the entities, not the types.
    for reset in [false, true] {
        alloc::tagged(|| if reset { w.reset() } else { w.clear() });
        let e = alloc::tagged(|| w.create((B::make().0,)));
        for (j, y) in kinds.iter().enumerate() {
            if !w.is_registered_dyn((y.3)().type_id()) || (y.2)(&w, f).is_some() {
                err!("after clear or reset: type {j} is not registered, or has values");
            }
            alloc::tagged(|| (y.1)(&mut w, e));
        }
        for (j, y) in kinds.iter().enumerate() {
            if (y.2)(&w, e) != Some(j as u32) {
                err!("after clear or reset: type {j} has the value {:?}", (y.2)(&w, e));
            }
        }
    }
    alloc::tagged(|| drop(w));
    if ledger::live_count() != 0 {
        err!("values were not dropped");
    }
    Exec::check_balance()?;
    Ok(steps)
}

fn vector(first: Option<u32>, from: u32, to: u32) -> Result<u64, String> {
    let slot = |v: u32, d: u32| SparseVecSlot { index: d, version: Version(NonZeroU32::new(v).unwrap()) };
    for b in from..to {
        let mut s = SparseVec::new();
        if let Some(a) = first {
            *s.get_mut_or_allocate_at(a as usize) = Some(slot(1, 77));
            if a == b {
                continue;
            }
        }
        let r = alloc::tagged(|| {
            let p = s.get_mut_or_allocate_at(b as usize);
            let r = p.is_some();
            *p = Some(slot(2, 78));
            r
        });
        if r {
            err!("the slot of {b} is not empty at first (allocated before: {first:?})");
        }
        if s.get(entity(b, 2)) != Some(78) || s.get_sparse(b as usize) != Some(78) || s.contains(entity(b, 1)) {
            err!("the entry of {b} is {:?} (allocated before: {first:?})", s.get_sparse(b as usize));
        }
        if let Some(a) = first {
            if s.get(entity(a, 1)) != Some(77) || s.contains(entity(a, 2)) {
                err!("the entry of {a} is {:?} after one at {b} was allocated", s.get_sparse(a as usize));
            }
        }
        for c in [b.wrapping_sub(1), b + 1, b / 2, 0] {
            if Some(c) != first && c != b && s.contains_sparse(c as usize) {
                err!("{c} has an entry after entries at {first:?} and {b}");
            }
        }
        alloc::tagged(|| drop(s));
    }
    alloc::flush_quarantine();
    alloc::reset_balance();
    Exec::side_errors()?;
    Ok(u64::from(to - from))
}

// ---------------------------------------------------------------- encoding

fn enc_op(o: &Op) -> String {
    match o {
        Op::Create(m) => format!("c.{m}"),
        Op::Extend(m, n, x) => format!("e.{m}.{n}.{}", u32::from(*x)),
        Op::Deferred(n) => format!("d.{n}"),
        Op::Insert(p, m) => format!("i.{p}.{m}"),
        Op::Remove(p, m) => format!("r.{p}.{m}"),
        Op::Delete(p, m) => format!("l.{p}.{m}"),
        Op::Destroy(p) => format!("x.{p}"),
        Op::Clear => "k".into(),
        Op::Reset => "z".into(),
        Op::Layout(n) => format!("y.{n}"),
    }
}

fn dec_op(s: &str) -> Option<Op> {
    let mut p = s.split('.');
    let t = p.next()?;
    let n: Vec<u32> = p.filter_map(|x| x.parse().ok()).collect();
    Some(match (t, n.as_slice()) {
        ("c", [m]) => Op::Create(*m as u8),
        ("e", [m, n, x]) => Op::Extend(*m as u8, *n, *x == 1),
        ("d", [n]) => Op::Deferred(*n),
        ("i", [p, m]) => Op::Insert(*p, *m as u8),
        ("r", [p, m]) => Op::Remove(*p, *m as u8),
        ("l", [p, m]) => Op::Delete(*p, *m as u8),
        ("x", [p]) => Op::Destroy(*p),
        ("k", []) => Op::Clear,
        ("z", []) => Op::Reset,
        ("y", [n]) => Op::Layout(*n as u8),
        _ => return None,
    })
}

fn enc(c: &Case) -> String {
    let list = |v: &[u32]| v.iter().map(u32::to_string).collect::<Vec<_>>().join(",");
    match c {
        Case::Grow(l, h, p, n) => format!("grow|{}", list(&[*l as u32, *h as u32, *p as u32, *n])),
        Case::Seq(l, h, p, n, ops) => {
            format!("seq|{}|{}", list(&[*l as u32, *h as u32, *p as u32, *n]), ops.iter().map(enc_op).collect::<Vec<_>>().join(","))
        }
        Case::High(l, n, o) => format!("high|{}|{}", list(&[*l as u32, *n]), list(o)),
        Case::Recycle(n, m, f, d, c) => format!("recycle|{}", list(&[*n, *m, u32::from(*f), *d, *c])),
        Case::Batch(n, b, l) => format!("batch|{}", list(&[*n, *b, *l as u32])),
        Case::Types(n, b) => format!("types|{}", list(&[*n as u32, u32::from(*b)])),
        Case::Vector(a, f, t) => format!("vector|{}", list(&[u32::from(a.is_some()), a.unwrap_or(0), *f, *t])),
    }
}

fn dec(s: &str) -> Option<Case> {
    let p: Vec<&str> = s.split('|').collect();
    let nums = |s: &str| -> Vec<u32> { s.split(',').filter_map(|x| x.parse().ok()).collect() };
    let a = nums(p.get(1)?);
    Some(match (p[0], a.as_slice()) {
        ("grow", [l, h, q, n]) => Case::Grow(*l as usize, *h as usize, *q as usize, *n),
        ("seq", [l, h, q, n]) => {
            Case::Seq(*l as usize, *h as usize, *q as usize, *n, p.get(2)?.split(',').filter_map(dec_op).collect())
        }
        ("high", [l, n]) => Case::High(*l as usize, *n, nums(p.get(2)?)),
        ("recycle", [n, m, f, d, c]) => Case::Recycle(*n, *m, *f == 1, *d, *c),
        ("batch", [n, b, l]) => Case::Batch(*n, *b, *l as usize),
        ("types", [n, b]) => Case::Types(*n as usize, *b == 1),
        ("vector", [s, v, f, t]) => Case::Vector((*s == 1).then_some(*v), *f, *t),
        _ => return None,
    })
}

fn run(c: &Case, alive: &dyn Fn()) -> Result<u64, String> {
    guarded(|| {
        begin_run();
        NEXT.set(0);
        match c {
            Case::Grow(l, h, p, n) => grow(*l, *h, *p, *n, alive),
            Case::Seq(l, h, p, n, ops) => seq(*l, *h, *p, *n, ops),
            Case::High(l, n, o) => high(*l, *n, o),
            Case::Recycle(n, m, f, d, c) => recycle(*n, *m, *f, *d, *c),
            Case::Batch(n, b, l) => batch(*n, *b, *l),
            Case::Types(n, b) => types(*n, *b),
            Case::Vector(a, f, t) => vector(*a, *f, *t),
        }
    })
}

// ---------------------------------------------------------------- space

/// First, last and boundary positions of a population.
fn positions(n: u32) -> Vec<u32> {
    if n == 0 {
        return vec![];
    }
    let b = 1 << (31 - n.leading_zeros());
    let mut v: Vec<u32> = [0, n / 2, b / 2, b - 1, b, n - 1].into_iter().filter(|p| *p < n).collect();
    v.sort_unstable();
    v.dedup();
    v
}

fn operations(n: u32, layout: usize) -> Vec<Op> {
    let mut v = vec![
        Op::Create(15),
        Op::Create(3),
        Op::Create(0),
        Op::Extend(15, 3, true),
        Op::Extend(12, n + 1, false),
        Op::Deferred(2),
        Op::Deferred(n + 1),
        Op::Clear,
        Op::Reset,
        Op::Layout(if layout == 0 { 2 } else { 0 }),
        Op::Layout(4),
        Op::Insert(NEWEST, 7),
        Op::Destroy(NEWEST),
    ];
    for p in positions(n) {
        v.extend([Op::Insert(p, 15), Op::Insert(p, 4), Op::Remove(p, 3), Op::Remove(p, 12), Op::Delete(p, 1), Op::Destroy(p)]);
    }
    v
}

fn space(tier: Tier) -> Vec<(&'static str, Vec<Case>)> {
    let thorough = tier == Tier::Thorough;
    let mut parts = Vec::new();

    let top = if thorough { 1 << 20 } else { 1 << 17 };
    let mut v = Vec::new();
    for l in 0..LAYOUTS.len() {
        for h in 0..3 {
            for p in 0..PATTERNS.len() {
                let large = p == 0 && (thorough || h == 0);
                v.push(Case::Grow(l, h, p, if large { top + 2 } else { 1026 }));
            }
        }
    }
    parts.push(("grow", v));

    let mut v = Vec::new();
    let mut sizes: Vec<(u32, usize)> = (0..=if thorough { 130 } else { 34 }).map(|n| (n, 2)).collect();
    for s in [6u32, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17] {
        for n in [(1 << s) - 1, 1 << s, (1 << s) + 1] {
            sizes.push((n, if s <= if thorough { 9 } else { 7 } { 2 } else { 1 }));
        }
    }
    if !thorough {
        sizes.extend((35..=260).map(|n| (n, 1)));
    }
    sizes.sort_unstable_by_key(|s| (s.0, std::cmp::Reverse(s.1)));
    sizes.dedup_by_key(|s| s.0);
    for l in 0..LAYOUTS.len() {
        for p in 0..PATTERNS.len() {
            if !thorough && (l + p) % 2 == 1 && l != 2 {
                continue;
            }
            for &(n, len) in &sizes {
                if n > 20_000 && (p != 0 || (!thorough && l % 2 == 1)) {
                    continue;
                }
                let how = if len == 2 { n as usize % 3 } else { 1 };
                let ops = operations(n, l);
                v.push(Case::Seq(l, how, p, n, vec![]));
                for a in &ops {
                    v.push(Case::Seq(l, how, p, n, vec![*a]));
                    if len == 2 {
                        for b in &ops {
                            v.push(Case::Seq(l, how, p, n, vec![*a, *b]));
                        }
                    }
                }
            }
        }
    }
    parts.push(("sequences", v));

    let mut v = Vec::new();
    let mut at: Vec<u32> = Vec::new();
    for s in 0..17 {
        at.extend([(1u32 << s) - 1, 1 << s, (1 << s) + 1]);
    }
    at.extend([100, 511 + 512, 1000, 1536, 2560, 3072, 3584, 4608, 5000, 6144, 7680, 10_000, 20_480, 33_333, 40_960, 49_152, 50_000, 61_440, 66_000]);
    at.sort_unstable();
    at.dedup();
    let n = 66_100;
    for (i, a) in at.iter().enumerate() {
        for (j, b) in at.iter().enumerate() {
            if a != b && (thorough || (i + j) % 3 == 0 || *b > 2000 && (i + j) % 2 == 0) {
                v.push(Case::High((i + j) % 5, n, vec![*a, *b, (a + b) / 2 + 1]));
            }
        }
        v.push(Case::High(0, n, vec![*a]));
    }
    for c in &mut v {
        if let Case::High(_, _, o) = c {
            let mut seen = BTreeSet::new();
            o.retain(|x| seen.insert(*x));
        }
    }
    if thorough {
        for l in [0, 2] {
            for a in (0..66_000).step_by(8) {
                v.push(Case::High(l, n, vec![a]));
            }
        }
        for big in [1 << 20, (1 << 22) + 7] {
            v.push(Case::High(0, big, vec![big - 1, 5, big / 2]));
            v.push(Case::High(2, big, vec![3, big / 2 + 1, big - 2]));
        }
    }
    parts.push(("high indexes", v));

    let mut v = Vec::new();
    let small = if thorough { 24 } else { 13 };
    for n in 0..=small {
        for m in 0..=n {
            for f in [true, false] {
                for d in 0..=m + 3 {
                    for c in 0..=m + 2 {
                        v.push(Case::Recycle(n, m, f, d, c));
                    }
                }
            }
        }
    }
    for n in (14..=if thorough { 260u32 } else { 140 }).chain([511, 512, 513, 1023, 1024, 1025, 4096, 65_537]) {
        for m in [1, n / 2, n - 1, n] {
            for (d, c) in [(0, m), (0, m + 2), (m / 2, m), (m, 0), (m, 3), (m + 3, 1), (m + 3, m)] {
                v.push(Case::Recycle(n, m, n % 2 == 0, d, c));
            }
        }
    }
    parts.push(("recycling", v));

    let mut v = Vec::new();
    for n in (0..if thorough { 140 } else { 70 }).chain([127, 128, 129, 255, 256, 257]) {
        for b in (0..if thorough { 140 } else { 70 }).chain([127, 128, 129, 255, 256, 257, 1024, 1025]) {
            if thorough {
                v.extend((0..LAYOUTS.len()).map(|l| Case::Batch(n, b, l)));
            } else {
                v.push(Case::Batch(n, b, (n + b) as usize % LAYOUTS.len()));
            }
        }
    }
    for (n, b) in [(0, 65_537), (1, 131_072), (4095, 65_536), (70_000, 70_000)] {
        v.push(Case::Batch(n, b, 0));
        v.push(Case::Batch(n, b, 2));
    }
    parts.push(("batches", v));

    parts.push(("types", (0..=300).step_by(if thorough { 1 } else { 4 }).flat_map(|n| [Case::Types(n, false), Case::Types(n, true)]).collect()));

    let mut v = Vec::new();
    let firsts: Vec<Option<u32>> = std::iter::once(None)
        .chain([0, 1, 2, 4, 5, 8, 15, 16, 17, 64, 255, 256, 1000, 1024, 2047, 2048, 2049, 4096, 5000, 8192, 40_000].map(Some))
        .collect();
    let end = if thorough { 140_000 } else { 36_000 };
    for f in firsts {
        for from in (0..end).step_by(250) {
            v.push(Case::Vector(f, from, (from + 250).min(end)));
        }
    }
    for s in 15..if thorough { 28 } else { 24 } {
        for f in [None, Some(3), Some(1 << 14), Some((1 << 15) + 1)] {
            v.push(Case::Vector(f, (1 << s) - 2, (1 << s) + 3));
            v.push(Case::Vector(f, (1 << s) + (1 << (s - 1)) - 1, (1 << s) + (1 << (s - 1)) + 2));
        }
    }
    parts.push(("sparse vectors", v));
    parts
}

struct C21;

impl Check for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        for (name, cases) in space(ctx.tier) {
            let t = ctx.elapsed();
            // The large ones are spread over the jobs.
            let each = if name == "grow" { 1 } else { 8 };
            let jobs = cases.len().div_ceil(each);
            ctx.parallel(jobs, |j| {
                let (mut states, mut steps) = (0, 0);
                for c in cases.iter().skip(j).step_by(jobs) {
                    if ctx.stopped() {
                        return;
                    }
                    let case = enc(c);
                    ctx.begin(&case);
                    match run(c, &|| ctx.alive()) {
                        Ok(s) => steps += s,
                        Err(m) => {
                            ctx.violation(&case, &m);
                            return;
                        }
                    }
                    states += 1;
                }
                ctx.end();
                ctx.add("states", states);
                ctx.add("transitions", steps);
            });
            ctx.add("traces_validated_against_impl", cases.len() as u64);
            ctx.note("configurations", &format!("{name}: {} cases in {:.1} s", cases.len(), (ctx.elapsed() - t).as_secs_f64()));
            if let Some(c) = cases.get(cases.len() / 2) {
                ctx.sample(format!("{c:?}"));
            }
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let c = dec(case).ok_or("bad case")?;
        catch_unwind(AssertUnwindSafe(|| run(&c, &|| {}).map(|_| ()))).unwrap_or_else(|_| Err(last_panic()))
    }
    fn explain(&self, case: &str) -> String {
        match dec(case) {
            Some(Case::Seq(l, h, p, n, ops)) => format!(
                "layout {}, {n} entities with {} created {}, then {ops:?}",
                LAYOUTS[l].0,
                PATTERNS[p].0,
                ["one by one", "in batches", "deferred"][h]
            ),
            Some(Case::Grow(l, h, p, n)) => format!(
                "layout {}, growing to {n} entities with {} created {}",
                LAYOUTS[l].0,
                PATTERNS[p].0,
                ["one by one", "in batches of one", "deferred"][h]
            ),
            Some(c) => format!("{c:?}"),
            None => case.into(),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["populations are built in three ways with three patterns of components; the operations at the end are exhaustive for the listed positions".into()]
    }
}

fn main() {
    engine::runner::main(&C21)
}
