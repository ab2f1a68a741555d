//! The public sparse vector against a map.

use engine::alloc;
use engine::bfs::{self, Bounds, System};
use engine::runner::{last_panic, Check, Ctx, Tier};
use mc::err;
use mc::exec::{begin_run, entity, Exec};
use mc::system::guarded;
use sparsey::entity::{SparseVec, SparseVecSlot, Version};
use std::collections::BTreeMap;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    /// Asks for the slot of an index, which may have to be allocated, and leaves it as it is.
    Touch(u32),
    /// Stores a version and a dense index in the slot of an index, which may have to be allocated.
    Put(u32, u32, u32),
    /// The same in an allocated slot.
    PutUnchecked(u32, u32, u32),
    /// Empties an allocated slot.
    Empty(u32),
    Remove(u32, u32),
    RemoveSparse(u32),
    Swap(u32, u32),
    Clear,
    /// Goes on with a clone.
    Clone,
}

fn version(v: u32) -> Version {
    Version(NonZeroU32::new(v).unwrap())
}

fn slot(v: u32, d: u32) -> SparseVecSlot {
    SparseVecSlot { index: d, version: version(v) }
}

fn raw(s: Option<SparseVecSlot>) -> Option<(u32, u32)> {
    s.map(|s| (s.version.0.get(), s.index))
}

#[derive(Default)]
struct Run {
    s: SparseVec,
    /// Index to version and dense index.
    m: BTreeMap<u32, (u32, u32)>,
    /// Number of indexes that are known to be allocated.
    allocated: u32,
    /// Requests that exceeded all before.
    growth: Vec<u32>,
    cleared: bool,
}

impl Run {
    fn apply(&mut self, op: Op) -> Result<(), String> {
        let got = |a: Option<(u32, u32)>, b: Option<&(u32, u32)>| {
            if a != b.copied() {
                err!("{op:?}: found {a:?} (version, dense index), expected {b:?}");
            }
            Ok(())
        };
        match op {
            Op::Touch(i) | Op::Put(i, ..) => {
                let p = alloc::tagged(|| self.s.get_mut_or_allocate_at(i as usize));
                got(raw(*p), self.m.get(&i))?;
                if let Op::Put(_, v, d) = op {
                    *p = Some(slot(v, d));
                    self.m.insert(i, (v, d));
                }
                if i >= self.allocated {
                    self.allocated = i + 1;
                    self.growth.push(i);
                }
            }
            Op::PutUnchecked(i, v, d) => {
                let p = unsafe { self.s.get_unchecked_mut(i as usize) };
                got(raw(*p), self.m.get(&i))?;
                *p = Some(slot(v, d));
                self.m.insert(i, (v, d));
            }
            Op::Empty(i) => {
                let p = unsafe { self.s.get_unchecked_mut(i as usize) };
                got(raw(*p), self.m.get(&i))?;
                *p = None;
                self.m.remove(&i);
            }
            Op::Remove(i, v) => {
                let want = self.m.get(&i).filter(|x| x.0 == v).copied();
                if want.is_some() {
                    self.m.remove(&i);
                }
                let r = self.s.remove(entity(i, v));
                if r != want.map(|x| x.1) {
                    err!("{op:?} returned {r:?}, expected {want:?}");
                }
            }
            Op::RemoveSparse(i) => {
                let want = self.m.remove(&i);
                got(raw(self.s.remove_sparse(i as usize)), want.as_ref())?;
            }
            Op::Swap(a, b) => {
                unsafe { self.s.swap_nonoverlapping(a as usize, b as usize) };
                let (x, y) = (self.m.remove(&a), self.m.remove(&b));
                self.m.extend(x.map(|x| (b, x)));
                self.m.extend(y.map(|y| (a, y)));
            }
            Op::Clear => {
                self.s.clear();
                self.m.clear();
                self.allocated = 0;
                self.growth.clear();
                self.cleared = true;
            }
            Op::Clone => {
                let c = alloc::tagged(|| self.s.clone());
                let old = std::mem::replace(&mut self.s, c);
                alloc::tagged(|| drop(old));
            }
        }
        Ok(())
    }

    /// Every lookup, for these and more indexes and versions.
    fn observe(&self, indexes: impl Iterator<Item = u32>, versions: &[u32]) -> Result<(), String> {
        for i in indexes {
            let want = self.m.get(&i);
            let (g, c) = (self.s.get_sparse(i as usize), self.s.contains_sparse(i as usize));
            if g != want.map(|x| x.1) || c != want.is_some() {
                err!("index {i}: dense index {g:?}, contained {c}; expected {want:?} (version, dense index)");
            }
            if let Some(w) = want {
                let u = unsafe { self.s.get_sparse_unchecked(i as usize) };
                if u != w.1 as usize {
                    err!("index {i}: unchecked dense index {u}; expected {}", w.1);
                }
            }
            for v in versions.iter().copied().chain(want.map(|x| x.0)) {
                let e = entity(i, v);
                let w = want.filter(|x| x.0 == v).map(|x| x.1);
                let (g, c) = (self.s.get(e), self.s.contains(e));
                if g != w || c != w.is_some() {
                    err!("{e:?}: dense index {g:?}, contained {c}; expected {w:?}");
                }
            }
        }
        for i in [usize::MAX, usize::MAX / 2, usize::MAX / 8, 1 << 32, (1 << 32) + 1] {
            if self.s.get_sparse(i).is_some() || self.s.contains_sparse(i) {
                err!("the index {i:#x} is contained");
            }
        }
        Exec::side_errors()
    }

    fn finish(self) -> Result<(), String> {
        alloc::tagged(|| drop(self.s));
        Exec::side_errors()
    }
}

struct Sys {
    index: usize,
    name: &'static str,
    indexes: Vec<u32>,
    versions: Vec<u32>,
    dense: Vec<u32>,
    unchecked: bool,
    depth: usize,
}

const PROBE: &[u32] = &[1, 2, 3, u32::MAX];

impl System for Sys {
    type Op = Op;

    fn run(&self, h: &[Op], is_new: &dyn Fn(u128) -> bool) -> Result<u128, String> {
        let key = guarded(|| {
            begin_run();
            let mut r = Run::default();
            for op in h {
                r.apply(*op)?;
            }
            let mut k = mc::exec::Hash::default();
            k.word(u64::from(r.cleared));
            k.word(r.growth.len() as u64);
            for g in &r.growth {
                k.word(u64::from(*g));
            }
            for (i, (v, d)) in &r.m {
                k.word(u64::from(*i));
                k.word(u64::from(*v));
                k.word(u64::from(*d));
            }
            let key = k.finish();
            is_new(key);
            let top = self.indexes.iter().max().unwrap() + 2;
            let far = [top.next_power_of_two(), top.next_power_of_two() + 1, 1000, u32::MAX - 1, u32::MAX];
            r.observe((0..top).chain(far), PROBE)?;
            r.finish()?;
            Ok(key)
        })?;
        Exec::check_balance()?;
        Ok(key)
    }

    fn enabled(&self, h: &[Op]) -> Result<Vec<Op>, String> {
        let allocated = guarded(|| {
            begin_run();
            let mut r = Run::default();
            for op in h {
                r.apply(*op)?;
            }
            Ok(r.allocated)
        })?;
        let mut ops = Vec::new();
        for &i in &self.indexes {
            ops.push(Op::Touch(i));
            for &v in &self.versions {
                for &d in &self.dense {
                    ops.push(Op::Put(i, v, d));
                    if self.unchecked && i < allocated {
                        ops.push(Op::PutUnchecked(i, v, d));
                    }
                }
                ops.push(Op::Remove(i, v));
            }
            ops.push(Op::RemoveSparse(i));
            if i < allocated {
                ops.push(Op::Empty(i));
                for &j in &self.indexes {
                    if j < allocated && i != j {
                        ops.push(Op::Swap(i, j));
                    }
                }
            }
        }
        ops.push(Op::Clear);
        ops.push(Op::Clone);
        Ok(ops)
    }

    fn encode(&self, h: &[Op]) -> String {
        format!("{}|{}", self.index, h.iter().map(enc).collect::<Vec<_>>().join(","))
    }

    fn show(&self, h: &[Op]) -> String {
        format!("[{}] {h:?}", self.name)
    }
}

fn enc(op: &Op) -> String {
    match op {
        Op::Touch(i) => format!("t.{i}"),
        Op::Put(i, v, d) => format!("p.{i}.{v}.{d}"),
        Op::PutUnchecked(i, v, d) => format!("u.{i}.{v}.{d}"),
        Op::Empty(i) => format!("e.{i}"),
        Op::Remove(i, v) => format!("r.{i}.{v}"),
        Op::RemoveSparse(i) => format!("s.{i}"),
        Op::Swap(i, j) => format!("x.{i}.{j}"),
        Op::Clear => "c".into(),
        Op::Clone => "k".into(),
    }
}

fn dec(s: &str) -> Option<Op> {
    let mut p = s.split('.');
    let k = p.next()?;
    let n: Vec<u32> = p.filter_map(|x| x.parse().ok()).collect();
    Some(match (k, n.as_slice()) {
        ("t", [i]) => Op::Touch(*i),
        ("p", [i, v, d]) => Op::Put(*i, *v, *d),
        ("u", [i, v, d]) => Op::PutUnchecked(*i, *v, *d),
        ("e", [i]) => Op::Empty(*i),
        ("r", [i, v]) => Op::Remove(*i, *v),
        ("s", [i]) => Op::RemoveSparse(*i),
        ("x", [i, j]) => Op::Swap(*i, *j),
        ("c", []) => Op::Clear,
        ("k", []) => Op::Clone,
        _ => return None,
    })
}

fn systems(tier: Tier) -> Vec<Sys> {
    let thorough = tier == Tier::Thorough;
    let mut v = vec![
        Sys {
            index: 0,
            name: "three indexes",
            indexes: vec![0, 1, 2],
            versions: vec![1, 2, u32::MAX],
            dense: vec![0, u32::MAX],
            unchecked: true,
            depth: 64,
        },
        Sys {
            index: 0,
            name: "indexes around the first powers of two",
            indexes: vec![0, 1, 2, 3, 4, 5, 8, 9],
            versions: vec![3],
            dense: vec![6],
            unchecked: false,
            depth: if thorough { 7 } else { 5 },
        },
        Sys {
            index: 0,
            name: "indexes around larger powers of two",
            indexes: vec![0, 15, 16, 17, 63, 64, 65, 255, 256, 257, 600],
            versions: vec![2],
            dense: vec![9],
            unchecked: false,
            depth: if thorough { 5 } else { 4 },
        },
    ];
    if thorough {
        v.push(Sys {
            index: 0,
            name: "four indexes",
            indexes: vec![0, 1, 2, 4],
            versions: vec![1, 2],
            dense: vec![0, 7],
            unchecked: true,
            depth: 64,
        });
    }
    v
}

/// Every pair of growing requests: three entries are stored before, between and after.
fn growth(a: u32, b: u32) -> Result<(), String> {
    let r = guarded(|| {
        begin_run();
        let mut r = Run::default();
        let ops = [
            Op::Put(a / 2, 1, 11),
            Op::Put(a, 2, 12),
            Op::Touch(b),
            Op::Put(b, 3, 13),
            Op::Put(b + 1, 1, 14),
            Op::Remove(a, 1),
            Op::Remove(b, 3),
        ];
        for op in ops {
            r.apply(op)?;
            if b <= 1 << 12 {
                r.observe(0..2 * b + 6, PROBE)?;
            } else {
                let spots = [a / 2, a, a + 1, b, b + 1, b + 2, b.next_power_of_two(), b.next_power_of_two() + 1];
                r.observe(spots.into_iter().chain(0..64), PROBE)?;
            }
        }
        r.finish()
    });
    r?;
    Exec::check_balance()
}

fn pairs(tier: Tier) -> Vec<(u32, u32)> {
    let small: u32 = if tier == Tier::Thorough { 600 } else { 140 };
    let mut v: Vec<(u32, u32)> = (0..small).flat_map(|a| (a + 1..small).map(move |b| (a, b))).collect();
    let big: Vec<u32> = (8..if tier == Tier::Thorough { 25 } else { 18 }).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    for (n, b) in big.iter().enumerate() {
        for a in [0, 1, 7, 8, 9].iter().chain(&big[..n]) {
            v.push((*a, *b));
        }
    }
    v
}

struct C17;

fn all() -> (Vec<Sys>, usize) {
    let mut v = systems(Tier::Quick);
    let n = v.len();
    v.extend(systems(Tier::Thorough));
    for (i, s) in v.iter_mut().enumerate() {
        s.index = i;
    }
    (v, n)
}

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        let (v, n) = all();
        let range = if ctx.tier == Tier::Quick { 0..n } else { n..v.len() };
        for s in &v[range] {
            let (states, tr, d, c) = bfs::explore(ctx, s, &Bounds { depth: s.depth, states: 20_000_000 });
            let done = if c { ", all reachable states" } else { ", bounded by depth" };
            ctx.note("configurations", &format!("{}: {states} states, {tr} transitions, depth {d}{done}", s.name));
            ctx.max("max_depth", d as u64);
        }
        let p = pairs(ctx.tier);
        let jobs = p.len().div_ceil(16);
        ctx.parallel(jobs, |j| {
            for (a, b) in &p[j * 16..(j * 16 + 16).min(p.len())] {
                let case = format!("g|{a},{b}");
                ctx.begin(&case);
                if let Err(m) = growth(*a, *b) {
                    ctx.violation(&case, &m);
                    return;
                }
                ctx.add("pairs_of_growing_requests", 1);
            }
        });
        ctx.add("traces_validated_against_impl", p.len() as u64);
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let run = || {
            let (k, rest) = case.split_once('|').ok_or("bad case")?;
            if k == "g" {
                let (a, b) = rest.split_once(',').ok_or("bad case")?;
                return growth(a.parse().map_err(|_| "bad case")?, b.parse().map_err(|_| "bad case")?);
            }
            let s = all().0.into_iter().nth(k.parse().map_err(|_| "bad case")?).ok_or("bad case")?;
            let mut h: Vec<Op> = rest.split(',').filter_map(dec).collect();
            for n in 0..=h.len() {
                s.run(&h[..n], &|_| true)?;
            }
            for op in s.enabled(&h)? {
                h.push(op);
                s.run(&h, &|_| true)?;
                h.pop();
            }
            Ok(())
        };
        catch_unwind(AssertUnwindSafe(run)).unwrap_or_else(|_| Err(last_panic()))
    }
    fn explain(&self, case: &str) -> String {
        let Some((k, rest)) = case.split_once('|') else { return case.to_string() };
        if k == "g" {
            return format!("growing to the indexes {rest}");
        }
        rest.split(',').filter_map(dec).enumerate().map(|(n, op)| format!("  {}. {op:?}\n", n + 1)).collect()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "states are merged when the entries, the sequence of requests that exceeded all before, and whether the vector was ever cleared agree".into(),
            "unchecked functions are called with indexes that were requested before, as their documentation demands".into(),
        ]
    }
}

fn main() {
    engine::runner::main(&C17)
}
