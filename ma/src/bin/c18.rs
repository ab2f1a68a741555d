//! Tuples of every arity: every use of every tuple, at every position.

use engine::runner::{last_panic, Check, Ctx, Tier};
use engine::{alloc, ledger};
use ma::{data, each, entries, positions, Entry, Opts, Position, Vals, T};
use mc::err;
use mc::exec::{begin_run, Exec};
use mc::system::guarded;
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Row = [Option<u32>; 16];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create,
    Extend(u8),
    /// Of an entity by number.
    Insert(u8),
    Remove(u8),
    Delete(u8),
    Destroy(u8),
    Write,
    WriteOne(u8),
    WriteSlice,
}

/// Layouts made for the components of an entry.
const LAYOUTS: usize = 6;

struct X {
    w: World,
    ents: Vec<(Entity, Row)>,
    groups: Vec<u32>,
}

fn mask_of(comps: &[usize]) -> u32 {
    comps.iter().map(|c| 1 << c).sum()
}

fn row_mask(r: &Row) -> u32 {
    (0..16).map(|i| u32::from(r[i].is_some()) << i).sum()
}

fn groups_for(e: &Entry, layout: usize) -> Vec<u32> {
    let k = e.arity;
    let m = mask_of(&e.comps);
    let outside = (0..16).find(|i| m >> i & 1 == 0);
    match layout {
        _ if k == 1 => match layout {
            1 | 2 => vec![m | 1 << outside.unwrap()],
            3 => vec![m | 1 << outside.unwrap(), 0xffff],
            _ => vec![],
        },
        0 => vec![],
        1 => vec![m],
        // Every prefix.
        2 => (2..=k).map(|n| mask_of(&e.comps[..n])).collect(),
        // Every suffix.
        3 => (2..=k).rev().map(|n| mask_of(&e.comps[k - n..])).collect(),
        4 => match outside {
            Some(o) => vec![m, m | 1 << o, 0xffff],
            None => vec![mask_of(&e.comps[..8]), 0xffff],
        },
        // Disjoint pairs.
        _ => e.comps.chunks(2).filter(|c| c.len() == 2).map(mask_of).collect(),
    }
}

impl X {
    /// An entity with everything, one with nothing, and for every position of the entry one with
    /// everything else, and one with nothing else.
    fn new(e: &Entry, layout: usize) -> Self {
        let groups = groups_for(e, layout);
        let mut l = GroupLayout::default();
        for g in &groups {
            if *g == mask_of(&e.comps) && e.group.is_some() {
                (e.group.unwrap())(&mut l);
            } else {
                l.add_group_dyn(&(0..16).filter(|i| g >> i & 1 == 1).map(data).collect::<Vec<_>>());
            }
        }
        let mut w = World::new(&l);
        for i in 0..16 {
            w.register_dyn(data(i));
        }
        let mut x = Self { w, ents: Vec::new(), groups };
        x.add(0xffff);
        x.add(0);
        for c in &e.comps {
            x.add(0xffff & !(1 << c));
            x.add(1 << c);
        }
        x
    }

    fn add(&mut self, mask: u32) {
        let e = self.w.create(());
        let mut row: Row = [None; 16];
        each!(P i => if mask >> i & 1 == 1 {
            let (t, v) = P::make();
            self.w.insert(e, (t,));
            row[i] = Some(v);
        });
        self.ents.push((e, row));
    }

    fn row(&mut self, n: u8) -> Option<(Entity, usize)> {
        self.ents.get(n as usize).map(|r| (r.0, n as usize))
    }

    fn set(&mut self, at: usize, comps: &[usize], vals: &[u32]) -> Result<(), String> {
        if vals.len() != comps.len() {
            err!("harness: {} values", vals.len());
        }
        for (c, v) in comps.iter().zip(vals) {
            self.ents[at].1[*c] = Some(*v);
        }
        Ok(())
    }

    /// The living entity that has these values.
    fn who(&self, comps: &[usize], vals: &[u32]) -> Result<usize, String> {
        let n = self.ents.iter().position(|r| comps.iter().zip(vals).all(|(c, v)| r.1[*c] == Some(*v)));
        n.ok_or_else(|| format!("no entity has the components {comps:?} with the values {vals:?}"))
    }

    fn written(&mut self, comps: &[usize], w: Vec<(Vals, Vals)>) -> Result<(), String> {
        let m = mask_of(comps);
        let want = self.ents.iter().filter(|r| row_mask(&r.1) & m == m).count();
        if w.len() != want {
            err!("{} entities were written, expected {want}", w.len());
        }
        for (old, new) in w {
            let n = self.who(comps, &old)?;
            self.set(n, comps, &new)?;
        }
        Ok(())
    }

    fn apply(&mut self, e: &Entry, op: Op) -> Result<bool, String> {
        let fresh = |x: &Self, n: Entity| {
            if x.ents.iter().any(|r| r.0 == n) {
                err!("{n:?} is alive already");
            }
            Ok(())
        };
        match op {
            Op::Create => {
                let (n, vals) = (e.create)(&mut self.w);
                fresh(self, n)?;
                self.ents.push((n, [None; 16]));
                self.set(self.ents.len() - 1, &e.comps, &vals)?;
            }
            Op::Extend(k) => {
                let (ns, vals) = (e.extend)(&mut self.w, k as usize, k % 2 == 1);
                if ns.len() != k as usize || vals.len() != k as usize {
                    err!("extend created {} of {k} entities from {} items", ns.len(), vals.len());
                }
                for (n, v) in ns.into_iter().zip(vals) {
                    fresh(self, n)?;
                    self.ents.push((n, [None; 16]));
                    self.set(self.ents.len() - 1, &e.comps, &v)?;
                }
            }
            Op::Insert(s) => {
                let Some((n, i)) = self.row(s) else { return Ok(false) };
                let (ok, vals) = (e.insert)(&mut self.w, n);
                if !ok {
                    err!("insert failed");
                }
                self.set(i, &e.comps, &vals)?;
            }
            Op::Remove(s) => {
                let Some((n, i)) = self.row(s) else { return Ok(false) };
                let got = (e.remove)(&mut self.w, n);
                let want: Opts = e.comps.iter().map(|c| self.ents[i].1[*c].take()).collect();
                if got != want {
                    err!("remove returned {got:?}, expected {want:?}");
                }
            }
            Op::Delete(s) => {
                let Some((n, i)) = self.row(s) else { return Ok(false) };
                (e.delete)(&mut self.w, n);
                for c in &e.comps {
                    self.ents[i].1[*c] = None;
                }
            }
            Op::Destroy(s) => {
                let Some((n, i)) = self.row(s) else { return Ok(false) };
                if !self.w.destroy(n) {
                    err!("destroy failed");
                }
                self.ents.remove(i);
            }
            Op::Write => {
                let w = (e.write)(&self.w);
                self.written(&e.comps, w)?;
            }
            Op::WriteOne(s) => {
                let Some((n, i)) = self.row(s) else { return Ok(false) };
                let m = mask_of(&e.comps);
                let has = row_mask(&self.ents[i].1) & m == m;
                match (e.one_write)(&self.w, n) {
                    Some((old, new)) if has => {
                        if self.who(&e.comps, &old)? != i {
                            err!("query_one found the values {old:?} of another entity");
                        }
                        self.set(i, &e.comps, &new)?;
                    }
                    None if !has => {}
                    o => err!("query_one found {o:?}"),
                }
            }
            Op::WriteSlice => {
                let s = (e.slice_write)(&self.w);
                match s {
                    Some(w) => self.written(&e.comps, w)?,
                    None if self.groups.contains(&mask_of(&e.comps)) => err!("the group cannot be sliced"),
                    None => {}
                }
            }
        }
        Ok(true)
    }

    /// Every component of every entity.
    fn views(&self) -> Result<(), String> {
        each!(P i => {
            let v = self.w.borrow::<P>();
            let n = self.ents.iter().filter(|r| r.1[i].is_some()).count();
            if v.len() != n || v.entities().len() != n || v.as_slice().len() != n {
                err!("component {i}: {} values, expected {n}", v.len());
            }
            for (e, r) in &self.ents {
                let got = v.get(*e).map(T::val);
                if got != r[i] {
                    err!("component {i} of {e:?} is {got:?}, expected {:?}", r[i]);
                }
            }
        });
        let alive = self.w.entities();
        if alive.len() != self.ents.len() || self.ents.iter().any(|r| !alive.contains(&r.0)) {
            err!("{} entities, expected {}", alive.len(), self.ents.len());
        }
        let n: usize = self.ents.iter().map(|r| r.1.iter().flatten().count()).sum();
        if ledger::live_count() != n {
            err!("{} component values exist, {n} are stored", ledger::live_count());
        }
        Exec::side_errors()
    }

    fn vals(&self, r: &Row, comps: &[usize]) -> Vals {
        comps.iter().map(|c| r[*c].unwrap_or(u32::MAX)).collect()
    }

    fn rows(&self, has: u32, not: u32) -> impl Iterator<Item = &(Entity, Row)> {
        self.ents.iter().filter(move |r| row_mask(&r.1) & has == has && row_mask(&r.1) & not == 0)
    }

    fn queries(&self, e: &Entry) -> Result<(), String> {
        let m = mask_of(&e.comps);
        let want: Vec<Vals> = sorted(self.rows(m, 0).map(|r| self.vals(&r.1, &e.comps)));
        let (got, dense) = (e.refs)(&self.w);
        same("items", &want, sorted(got.iter().cloned()))?;
        let s = (e.slice)(&self.w);
        if self.groups.contains(&m) && (!dense || s.is_none()) {
            err!("the group is not dense or cannot be sliced");
        }
        if let Some(s) = s {
            for (i, col) in s.iter().enumerate() {
                let c: Vals = got.iter().map(|v| v[i]).collect();
                if *col != c {
                    err!("slice at position {i} is {col:?}, items have {c:?}");
                }
            }
        }
        let opts = sorted(self.ents.iter().map(|r| e.comps.iter().map(|c| r.1[*c]).collect::<Opts>()));
        same("optional items", &opts, sorted((e.opts)(&self.w)))?;
        same("included entities", &sorted(self.rows(m, 0).map(|r| r.0)), sorted((e.include)(&self.w)))?;
        same("entities that are not excluded", &sorted(self.rows(0, m).map(|r| r.0)), sorted((e.exclude)(&self.w)))?;
        for (n, r) in &self.ents {
            let w = (row_mask(r) & m == m).then(|| self.vals(r, &e.comps));
            let (c, g, p) = (e.one)(&self.w, *n);
            if c != w.is_some() || g != w || p != w {
                err!("query_one: contains {c}, get {g:?}, map {p:?}, expected {w:?}");
            }
        }
        Exec::side_errors()
    }

    fn position(&mut self, p: &Position) -> Result<(), String> {
        let this = p.comps[p.at];
        let others: Vec<usize> = p.comps.iter().copied().filter(|c| *c != this).collect();
        let (m, o) = (mask_of(&p.comps), mask_of(&others));
        let t = m & !o;
        let want = sorted(self.rows(o, 0).map(|r| p.comps.iter().map(|c| r.1[*c]).collect::<Opts>()));
        same("items with an optional part", &want, sorted((p.opt)(&self.w)))?;
        let want = sorted(self.rows(o, 0).map(|r| (r.0, self.vals(&r.1, &others))));
        same("items with the entity", &want, sorted((p.entity)(&self.w)))?;
        same("entities without this component", &sorted(self.rows(o, t).map(|r| r.0)), sorted((p.only_missing)(&self.w)))?;
        same("entities with only this component", &sorted(self.rows(t, o).map(|r| r.0)), sorted((p.only_present)(&self.w)))?;
        let want = sorted(self.rows(m, 0).map(|r| self.vals(&r.1, &others)));
        same("items that include this component", &want, sorted((p.include_one)(&self.w)))?;
        for (n, r) in &self.ents {
            let want = (row_mask(r) & o == o && row_mask(r) & t == 0).then(|| self.vals(r, &others));
            let got = (p.one)(&self.w, *n);
            if got != want {
                err!("query_one without this component finds {got:?}, expected {want:?}");
            }
        }
        let w = (p.write)(&self.w);
        let n = self.rows(m, 0).count();
        if w.len() != n {
            err!("writing this component visited {} entities, expected {n}", w.len());
        }
        for (old, new) in w {
            let i = self.who(&p.comps, &old)?;
            self.ents[i].1[this] = Some(new);
        }
        self.views()
    }

    fn finish(self) -> Result<(), String> {
        drop(self.w);
        Exec::side_errors()?;
        if ledger::live_count() != 0 {
            err!("{} values were not dropped", ledger::live_count());
        }
        Ok(())
    }
}

fn sorted<V: Ord>(i: impl IntoIterator<Item = V>) -> Vec<V> {
    let mut v: Vec<V> = i.into_iter().collect();
    v.sort();
    v
}

fn same<V: PartialEq + std::fmt::Debug>(what: &str, want: &[V], got: Vec<V>) -> Result<(), String> {
    if got != want {
        err!("{what}: {got:?}, expected {want:?}");
    }
    Ok(())
}

/// The operations of a world made for an entry.
fn ops(e: &Entry) -> Vec<Op> {
    let n = 2 + 2 * e.arity as u8;
    let mut v = vec![Op::Create, Op::Extend(2), Op::Extend(3), Op::Write, Op::WriteSlice];
    for s in 0..n {
        v.extend([Op::Insert(s), Op::Remove(s), Op::Delete(s), Op::Destroy(s), Op::WriteOne(s)]);
    }
    v
}

/// Operations after `op`: on the entity it was about, the next one and the last one.
fn next_ops(e: &Entry, op: Op, all: bool) -> Vec<Op> {
    if all {
        return ops(e);
    }
    let last = 2 + 2 * e.arity as u8;
    let s = match op {
        Op::Insert(s) | Op::Remove(s) | Op::Delete(s) | Op::Destroy(s) | Op::WriteOne(s) => s,
        _ => last,
    };
    vec![Op::Create, Op::Extend(3), Op::Insert(s), Op::Remove(s), Op::Delete(0), Op::Remove(last - 1), Op::WriteSlice]
}

struct C18 {
    entries: Vec<Entry>,
    positions: Vec<Position>,
}

impl C18 {
    /// Operations of entry `a` first, and of entry `b` afterwards.
    fn run(&self, a: usize, b: usize, layout: usize, h: &[Op]) -> Result<(), String> {
        guarded(|| {
            begin_run();
            let (a, b) = (&self.entries[a], &self.entries[b]);
            let mut x = alloc::tagged(|| X::new(a, layout));
            for (i, op) in h.iter().enumerate() {
                x.apply(if i == 0 { a } else { b }, *op)?;
            }
            x.views()?;
            x.queries(b)?;
            x.queries(a)?;
            x.finish()
        })
    }

    fn run_position(&self, p: usize, layout: usize, h: &[Op]) -> Result<(), String> {
        guarded(|| {
            begin_run();
            let p = &self.positions[p];
            let e = self.entries.iter().find(|e| e.arity == p.arity && e.order == p.order).unwrap();
            let mut x = X::new(e, layout);
            for op in h {
                x.apply(e, *op)?;
            }
            x.position(p)?;
            x.queries(e)?;
            x.finish()
        })
    }

    /// The next entry with the same arity and the same set of components.
    fn other(&self, a: usize) -> usize {
        let m = mask_of(&self.entries[a].comps);
        let same: Vec<usize> = (0..self.entries.len()).filter(|i| mask_of(&self.entries[*i].comps) == m).collect();
        let at = same.iter().position(|i| *i == a).unwrap();
        same[(at + 1) % same.len()]
    }
}

fn enc(h: &[Op]) -> String {
    let one = |op: &Op| match op {
        Op::Create => "c".to_string(),
        Op::Extend(n) => format!("e{n}"),
        Op::Insert(n) => format!("i{n}"),
        Op::Remove(n) => format!("r{n}"),
        Op::Delete(n) => format!("d{n}"),
        Op::Destroy(n) => format!("x{n}"),
        Op::Write => "w".to_string(),
        Op::WriteOne(n) => format!("o{n}"),
        Op::WriteSlice => "s".to_string(),
    };
    h.iter().map(one).collect::<Vec<_>>().join(",")
}

fn dec(s: &str) -> Vec<Op> {
    s.split(',')
        .filter_map(|t| {
            let n: u8 = t.get(1..)?.parse().unwrap_or(0);
            Some(match t.as_bytes().first()? {
                b'c' => Op::Create,
                b'e' => Op::Extend(n),
                b'i' => Op::Insert(n),
                b'r' => Op::Remove(n),
                b'd' => Op::Delete(n),
                b'x' => Op::Destroy(n),
                b'w' => Op::Write,
                b'o' => Op::WriteOne(n),
                _ => Op::WriteSlice,
            })
        })
        .collect()
}

impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        let thorough = ctx.tier == Tier::Thorough;
        let run = |a: usize, layout: usize, h: &[Op]| {
            let b = self.other(a);
            let case = format!("t:{a}:{b}:{layout}:{}", enc(h));
            ctx.begin(&case);
            if let Err(m) = self.run(a, b, layout, h) {
                ctx.violation(&case, &m);
            }
            ctx.add("states", 1);
            ctx.add("transitions", h.len() as u64);
            ctx.add("traces_validated_against_impl", 1);
        };
        // Larger arities first: they take longer.
        let jobs: Vec<(usize, usize, usize)> = (0..self.entries.len())
            .rev()
            .flat_map(|a| (0..LAYOUTS).flat_map(move |l| (0..8).map(move |part| (a, l, part))))
            .collect();
        ctx.parallel(jobs.len(), |j| {
            let (a, layout, part) = jobs[j];
            if part == 0 {
                run(a, layout, &[]);
            }
            let all = thorough && self.entries[a].arity <= 8;
            for (i, op) in ops(&self.entries[a]).into_iter().enumerate() {
                if i % 8 != part {
                    continue;
                }
                run(a, layout, &[op]);
                for next in next_ops(&self.entries[a], op, all) {
                    if ctx.stopped() {
                        return;
                    }
                    run(a, layout, &[op, next]);
                    if thorough {
                        for third in next_ops(&self.entries[a], next, false) {
                            run(a, layout, &[op, next, third]);
                        }
                    }
                }
            }
        });
        let before: Vec<Vec<Op>> = if thorough {
            let mut v = vec![vec![]];
            for a in [Op::Create, Op::Extend(3), Op::Insert(1), Op::Remove(0), Op::Delete(2), Op::Destroy(0)] {
                v.push(vec![a]);
                for b in [Op::Create, Op::Insert(3), Op::Remove(4), Op::Destroy(2)] {
                    v.push(vec![a, b]);
                }
            }
            v
        } else {
            vec![vec![], vec![Op::Extend(3), Op::Insert(1), Op::Remove(2)]]
        };
        let jobs: Vec<(usize, usize)> = (0..self.positions.len()).rev().flat_map(|p| (0..LAYOUTS).map(move |l| (p, l))).collect();
        ctx.parallel(jobs.len(), |j| {
            let (p, layout) = jobs[j];
            for h in &before {
                let case = format!("p:{p}:0:{layout}:{}", enc(h));
                ctx.begin(&case);
                if let Err(m) = self.run_position(p, layout, h) {
                    let p = &self.positions[p];
                    ctx.violation(&case, &format!("tuple of {} ({}), position {}: {m}", p.arity, p.order, p.at));
                }
                ctx.add("positions_checked", 1);
                ctx.add("states", 1);
                ctx.add("traces_validated_against_impl", 1);
            }
        });
        ctx.add("tuple_types", self.entries.len() as u64);
        ctx.add("positions", self.positions.len() as u64);
        ctx.note("rule", "every tuple type (arity and order of components) under every layout made for it, every operation on every prepared entity and every pair of operations in which the second uses the components in another order; then every position as optional, exclusive, entity, included and excluded part");
        ctx.sample(self.explain(&format!("t:{}:{}:2:r3,i3", self.entries.len() - 1, self.other(self.entries.len() - 1))));
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let p: Vec<&str> = case.split(':').collect();
        let n = |i: usize| p.get(i).and_then(|x| x.parse::<usize>().ok()).ok_or("bad case");
        let h = dec(p.get(4).ok_or("bad case")?);
        let (a, b, layout) = (n(1)?, n(2)?, n(3)?);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if p[0] == "p" {
                self.run_position(a, layout, &h)
            } else {
                self.run(a, b, layout, &h)
            }
        }));
        r.unwrap_or_else(|_| Err(last_panic()))
    }
    fn explain(&self, case: &str) -> String {
        let p: Vec<&str> = case.split(':').collect();
        let (Some(Ok(a)), Some(Ok(b)), Some(Ok(l)), Some(h)) =
            (p.get(1).map(|x| x.parse::<usize>()), p.get(2).map(|x| x.parse::<usize>()), p.get(3).map(|x| x.parse::<usize>()), p.get(4))
        else {
            return case.to_string();
        };
        let h = dec(h);
        if p[0] == "p" {
            let Some(x) = self.positions.get(a) else { return case.to_string() };
            return format!("components {:?}, position {}, layout {l}, after {h:?}", x.comps, x.at);
        }
        let (Some(x), Some(y)) = (self.entries.get(a), self.entries.get(b)) else { return case.to_string() };
        format!("tuples of components {:?}, then {:?}, groups {:x?}, operations {h:?}", x.comps, y.comps, groups_for(x, l))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a tuple does not name a component twice".into()]
    }
}

fn main() {
    engine::runner::main(&C18 { entries: entries(), positions: positions() })
}
