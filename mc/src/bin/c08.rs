//! Memory and ownership: worlds of tracked components, and every operation sequence up to a length
//! for component types of many sizes and alignments.

use engine::runner::{last_panic, Check, Ctx, Tier};
use engine::{alloc, ledger};
use mc::err;
use mc::exec::{begin_run, Exec};
use mc::system::*;
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------------------------------------
// Shapes.

/// A component type of some size and alignment. `tok` identifies the value as far as it can.
trait Shape: Send + Sync + Sized + 'static {
    const NAME: &'static str;
    fn make(tok: u32) -> Self;
    /// Whether this is the value made from `tok`.
    fn is(&self, tok: u32) -> bool;
    /// Whether drops of the type are recorded in the ledger.
    const TRACKED: bool;
}

fn token<T: Shape>() -> u32 {
    thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    if T::TRACKED && size_of::<T>() == 0 {
        ledger::issue_zst();
        0
    } else if T::TRACKED {
        ledger::issue()
    } else {
        N.set(N.get() % 250 + 1);
        N.get()
    }
}

fn pattern<const K: usize>(tok: u32) -> [u8; K] {
    std::array::from_fn(|i| (tok as u8).wrapping_mul(31).wrapping_add(i as u8))
}

macro_rules! shape {
    ($(#[$attr:meta])* $name:ident, $label:literal, bytes $k:literal) => {
        $(#[$attr])*
        struct $name([u8; $k]);
        impl Shape for $name {
            const NAME: &'static str = $label;
            const TRACKED: bool = false;
            fn make(tok: u32) -> Self {
                Self(pattern(tok))
            }
            fn is(&self, tok: u32) -> bool {
                self.0 == pattern::<$k>(tok)
            }
        }
    };
    ($(#[$attr:meta])* $name:ident, $label:literal, tracked $k:literal) => {
        $(#[$attr])*
        struct $name(u32, [u8; $k]);
        impl Shape for $name {
            const NAME: &'static str = $label;
            const TRACKED: bool = true;
            fn make(tok: u32) -> Self {
                Self(tok, pattern(tok))
            }
            fn is(&self, tok: u32) -> bool {
                self.0 == tok && self.1 == pattern::<$k>(tok) && ledger::is_live(tok)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if self.1 != pattern::<$k>(self.0) {
                    ledger::error(format!("{}: a corrupted value is dropped", $label));
                }
                ledger::on_drop(self.0);
            }
        }
    };
    ($(#[$attr:meta])* $name:ident, $label:literal, zst) => {
        $(#[$attr])*
        struct $name;
        impl Shape for $name {
            const NAME: &'static str = $label;
            const TRACKED: bool = true;
            fn make(_: u32) -> Self {
                Self
            }
            fn is(&self, _: u32) -> bool {
                true
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                ledger::on_drop_zst();
            }
        }
    };
    ($(#[$attr:meta])* $name:ident, $label:literal, plain zst) => {
        $(#[$attr])*
        struct $name;
        impl Shape for $name {
            const NAME: &'static str = $label;
            const TRACKED: bool = false;
            fn make(_: u32) -> Self {
                Self
            }
            fn is(&self, _: u32) -> bool {
                true
            }
        }
    };
}

shape!(S1, "1 byte", bytes 1);
shape!(S3, "3 bytes", bytes 3);
shape!(#[repr(align(2))] S2, "2 bytes aligned to 2", bytes 2);
shape!(#[repr(align(8))] S8, "16 bytes aligned to 8", bytes 13);
shape!(S24, "24 bytes", bytes 24);
shape!(S1000, "1000 bytes", bytes 1000);
shape!(#[repr(align(16))] S16, "16 bytes aligned to 16", bytes 16);
shape!(#[repr(align(128))] S128, "128 bytes aligned to 128", bytes 100);
shape!(#[repr(align(4096))] S4096, "4096 bytes aligned to 4096", bytes 5);
shape!(T8, "tracked, 8 bytes", tracked 3);
shape!(#[repr(align(32))] T32, "tracked, 64 bytes aligned to 32", tracked 40);
shape!(#[repr(align(512))] T512, "tracked, 512 bytes aligned to 512", tracked 1);
shape!(T300, "tracked, 304 bytes", tracked 300);
shape!(Z1, "zero-sized", plain zst);
shape!(#[repr(align(64))] Z64, "zero-sized aligned to 64", plain zst);
shape!(ZD, "zero-sized with a destructor", zst);
shape!(#[repr(align(256))] ZD256, "zero-sized aligned to 256 with a destructor", zst);

struct Boxed(Box<(u32, [u8; 9])>, Vec<u32>);

impl Shape for Boxed {
    const NAME: &'static str = "owning a box and a vector";
    const TRACKED: bool = true;
    fn make(tok: u32) -> Self {
        alloc::untagged(|| Self(Box::new((tok, pattern(tok))), vec![tok; tok as usize % 5]))
    }
    fn is(&self, tok: u32) -> bool {
        ledger::is_live(tok)
            && self.0 .0 == tok
            && self.0 .1 == pattern::<9>(tok)
            && self.1.len() == tok as usize % 5
            && self.1.iter().all(|t| *t == tok)
    }
}

impl Drop for Boxed {
    fn drop(&mut self) {
        ledger::on_drop(self.0 .0);
    }
}

/// What it is grouped with.
struct P(u32, u32);

impl Drop for P {
    fn drop(&mut self) {
        if self.1 != !self.0 {
            ledger::error("a corrupted partner value is dropped".into());
        }
        ledger::on_drop(self.0);
    }
}

fn partner() -> (P, u32) {
    let t = ledger::issue();
    (P(t, !t), t)
}

// ---------------------------------------------------------------------------------------------
// Operation sequences.

const OPS: &[&str] = &[
    "create(T, P)",
    "create(T)",
    "extend(T) x 5",
    "extend(P, T) x 3",
    "insert(first, T)",
    "insert(last, T)",
    "insert(first, P)",
    "remove T of first",
    "delete T of second",
    "remove (T, P) of last",
    "delete P of first",
    "destroy first",
    "destroy last",
    "clear",
    "toggle layout",
];
const RESET: usize = OPS.len();
const MAX_ENTS: usize = 14;
/// Tuples that name a component twice.
const TWICE: &[&str] = &["create(T, T)", "extend(T, P, T) x 2", "insert(first, (T, T))", "remove (T, P, T) of last", "delete (T, T) of first"];

struct Ent {
    e: Entity,
    t: Option<u32>,
    p: Option<u32>,
}

fn layout<T: Shape>(grouped: bool) -> GroupLayout {
    let mut l = GroupLayout::default();
    if grouped {
        l.add_group::<(T, P)>();
    }
    l
}

fn check_world<T: Shape>(w: &World, ents: &[Ent], grouped: bool) -> Result<(), String> {
    let v = w.borrow::<T>();
    let p = w.borrow::<P>();
    let nt = ents.iter().filter(|x| x.t.is_some()).count();
    let np = ents.iter().filter(|x| x.p.is_some()).count();
    if v.len() != nt || v.as_slice().len() != nt || p.len() != np {
        err!("{} values and {} partners are stored, expected {nt} and {np}", v.len(), p.len());
    }
    for (i, t) in v.as_slice().iter().enumerate() {
        if std::ptr::from_ref(t) as usize % align_of::<T>() != 0 {
            err!("value {i} is not aligned");
        }
        let e = v.entities()[i];
        let Some(x) = ents.iter().find(|x| x.e == e) else { err!("a value is stored for {e:?}") };
        if !x.t.is_some_and(|tok| t.is(tok)) {
            err!("the value at position {i} is not the one of {e:?}");
        }
    }
    for x in ents {
        let got = v.get(x.e);
        if got.is_some() != x.t.is_some() || got.is_some_and(|t| !t.is(x.t.unwrap())) {
            err!("wrong value for {:?}", x.e);
        }
        let got = p.get(x.e).map(|q| if q.1 == !q.0 && ledger::is_live(q.0) { q.0 } else { u32::MAX });
        if got != x.p {
            err!("wrong partner for {:?}: {got:?}, expected {:?}", x.e, x.p);
        }
    }
    if grouped {
        let mut n = 0;
        for (e, t, q) in w.query_all::<(Entity, &T, &P)>().iter() {
            n += 1;
            let Some(x) = ents.iter().find(|x| x.e == e) else { err!("the query yields {e:?}") };
            if !x.t.is_some_and(|tok| t.is(tok)) || x.p != Some(q.0) {
                err!("the query yields wrong values for {e:?}");
            }
        }
        let both = ents.iter().filter(|x| x.t.is_some() && x.p.is_some()).count();
        if n != both {
            err!("the query yields {n} entities, expected {both}");
        }
    }
    Exec::side_errors()
}

fn apply<T: Shape>(w: &mut World, ents: &mut Vec<Ent>, grouped: &mut bool, op: usize) -> Result<bool, String> {
    let n = ents.len();
    let pick = |k: usize| match k {
        0 => (n > 0).then_some(0),
        1 => (n > 1).then_some(1),
        _ => (n > 0).then(|| n - 1),
    };
    let mk = || {
        let t = token::<T>();
        (alloc::untagged(|| T::make(t)), t)
    };
    let same = |got: &Option<T>, want: Option<u32>| got.is_some() == want.is_some() && got.as_ref().is_none_or(|g| g.is(want.unwrap()));
    match op {
        0 | 1 => {
            if n >= MAX_ENTS {
                return Ok(false);
            }
            let (t, tok) = mk();
            let (e, p) = if op == 0 {
                let (p, ptok) = partner();
                (alloc::tagged(|| w.create((t, p))), Some(ptok))
            } else {
                (alloc::tagged(|| w.create((t,))), None)
            };
            ents.push(Ent { e, t: Some(tok), p });
        }
        2 | 3 => {
            let k = if op == 2 { 5 } else { 3 };
            if n + k > MAX_ENTS {
                return Ok(false);
            }
            let mut toks = Vec::new();
            let es: Vec<Entity> = if op == 2 {
                let items: Vec<(T,)> = (0..k)
                    .map(|_| {
                        let (t, tok) = mk();
                        toks.push((tok, None));
                        (t,)
                    })
                    .collect();
                alloc::tagged(|| {
                    let s = w.extend(items);
                    alloc::untagged(|| s.to_vec())
                })
            } else {
                let items: Vec<(P, T)> = (0..k)
                    .map(|_| {
                        let (t, tok) = mk();
                        let (p, ptok) = partner();
                        toks.push((tok, Some(ptok)));
                        (p, t)
                    })
                    .collect();
                // No size hint.
                let mut it = items.into_iter();
                alloc::tagged(|| {
                    let s = w.extend(std::iter::from_fn(|| it.next()));
                    alloc::untagged(|| s.to_vec())
                })
            };
            if es.len() != k {
                err!("extend returned {} entities", es.len());
            }
            ents.extend(es.into_iter().zip(toks).map(|(e, (t, p))| Ent { e, t: Some(t), p }));
        }
        4 | 5 => {
            let Some(i) = pick(if op == 4 { 0 } else { 2 }) else { return Ok(false) };
            let (t, tok) = mk();
            if !alloc::tagged(|| w.insert(ents[i].e, (t,))) {
                err!("insert returned false");
            }
            ents[i].t = Some(tok);
        }
        6 => {
            let Some(i) = pick(0) else { return Ok(false) };
            let (p, tok) = partner();
            if !alloc::tagged(|| w.insert(ents[i].e, (p,))) {
                err!("insert returned false");
            }
            ents[i].p = Some(tok);
        }
        7 => {
            let Some(i) = pick(0) else { return Ok(false) };
            let (got,) = alloc::tagged(|| w.remove::<(T,)>(ents[i].e));
            if !same(&got, ents[i].t.take()) {
                err!("remove returned a wrong value");
            }
        }
        8 => {
            let Some(i) = pick(1) else { return Ok(false) };
            alloc::tagged(|| w.delete::<(T,)>(ents[i].e));
            ents[i].t = None;
        }
        9 => {
            let Some(i) = pick(2) else { return Ok(false) };
            let (got, p) = alloc::tagged(|| w.remove::<(T, P)>(ents[i].e));
            if !same(&got, ents[i].t.take()) || p.as_ref().map(|p| p.0) != ents[i].p.take() {
                err!("remove returned a wrong value");
            }
        }
        10 => {
            let Some(i) = pick(0) else { return Ok(false) };
            alloc::tagged(|| w.delete::<(P,)>(ents[i].e));
            ents[i].p = None;
        }
        11 | 12 => {
            let Some(i) = pick(if op == 11 { 0 } else { 2 }) else { return Ok(false) };
            if !alloc::tagged(|| w.destroy(ents[i].e)) {
                err!("destroy returned false");
            }
            ents.remove(i);
        }
        13 => {
            alloc::tagged(|| w.clear());
            ents.clear();
        }
        14 => {
            *grouped = !*grouped;
            alloc::tagged(|| {
                let l = layout::<T>(*grouped);
                w.set_layout(&l);
            });
        }
        RESET => {
            alloc::tagged(|| w.reset());
            ents.clear();
        }
        _ => return twice::<T>(w, ents, op - RESET - 1),
    }
    Ok(true)
}

/// Which of two values the entity was left with is not specified, but it is one of them.
fn left<T: Shape>(w: &World, e: Entity, toks: [u32; 2]) -> Result<u32, String> {
    let v = w.borrow::<T>();
    let Some(t) = v.get(e) else { err!("{e:?} has neither of the two values given to it") };
    match toks.iter().find(|tok| t.is(**tok)) {
        Some(tok) => Ok(*tok),
        None => err!("{e:?} has neither of the two values given to it"),
    }
}

fn twice<T: Shape>(w: &mut World, ents: &mut Vec<Ent>, op: usize) -> Result<bool, String> {
    let n = ents.len();
    let mk = || {
        let t = token::<T>();
        (alloc::untagged(|| T::make(t)), t)
    };
    match op {
        0 => {
            let ((t, a), (u, b)) = (mk(), mk());
            let e = alloc::tagged(|| w.create((t, u)));
            let t = left::<T>(w, e, [a, b])?;
            ents.push(Ent { e, t: Some(t), p: None });
        }
        1 => {
            let mut toks = Vec::new();
            let items: Vec<(T, P, T)> = (0..2)
                .map(|_| {
                    let ((t, a), (p, q), (u, b)) = (mk(), partner(), mk());
                    toks.push(([a, b], q));
                    (t, p, u)
                })
                .collect();
            let es: Vec<Entity> = alloc::tagged(|| {
                let s = w.extend(items);
                alloc::untagged(|| s.to_vec())
            });
            if es.len() != 2 {
                err!("extend returned {} entities", es.len());
            }
            for (e, (t, q)) in es.into_iter().zip(toks) {
                let t = left::<T>(w, e, t)?;
                ents.push(Ent { e, t: Some(t), p: Some(q) });
            }
        }
        2 if n > 0 => {
            let ((t, a), (u, b)) = (mk(), mk());
            if !alloc::tagged(|| w.insert(ents[0].e, (t, u))) {
                err!("insert returned false");
            }
            ents[0].t = Some(left::<T>(w, ents[0].e, [a, b])?);
        }
        3 if n > 0 => {
            let (t, p, u) = alloc::tagged(|| w.remove::<(T, P, T)>(ents[n - 1].e));
            let want = ents[n - 1].t.take();
            if p.as_ref().map(|p| p.0) != ents[n - 1].p.take() {
                err!("remove returned a wrong value");
            }
            match (want, t, u) {
                (None, None, None) => {}
                (Some(tok), Some(t), None) | (Some(tok), None, Some(t)) if t.is(tok) => {}
                _ => err!("remove returned wrong values"),
            }
        }
        4 if n > 0 => {
            alloc::tagged(|| w.delete::<(T, T)>(ents[0].e));
            ents[0].t = None;
        }
        _ => return Ok(false),
    }
    Ok(true)
}

/// Returns how many steps of the sequence could be taken.
fn run_shape<T: Shape>(grouped: bool, seq: &[usize]) -> Result<usize, String> {
    let r = guarded(|| {
        begin_run();
        let mut grouped = grouped;
        let mut w = alloc::tagged(|| {
            let mut b = World::builder();
            b.register::<T>().register::<P>();
            b.set_layout(layout::<T>(grouped));
            b.build()
        });
        let mut ents = Vec::new();
        for (i, op) in seq.iter().enumerate() {
            if !apply::<T>(&mut w, &mut ents, &mut grouped, *op).map_err(|m| format!("step {}: {m}", i + 1))? {
                drop(w);
                return Ok(i);
            }
            check_world::<T>(&w, &ents, grouped).map_err(|m| format!("after step {}: {m}", i + 1))?;
        }
        alloc::tagged(|| drop(w));
        Exec::side_errors()?;
        if ledger::live_count() != 0 || ledger::live_zst() != 0 {
            err!("{} values were not dropped with the world", ledger::live_count() as i64 + ledger::live_zst());
        }
        Ok(seq.len())
    })?;
    if r == seq.len() {
        Exec::check_balance()?;
    }
    Ok(r)
}

type Runner = (&'static str, fn(bool, &[usize]) -> Result<usize, String>, fn(bool, usize, usize) -> Result<usize, String>);

macro_rules! runners {
    ($($T:ident)*) => { &[$((<$T as Shape>::NAME, run_shape::<$T>, grow_shape::<$T>)),*] };
}

const SHAPES: &[Runner] = runners!(S1 S3 S2 S8 S24 S1000 S16 S128 S4096 T8 T32 T512 T300 Z1 Z64 ZD ZD256 Boxed);

fn encode(shape: usize, grouped: bool, seq: &[usize]) -> String {
    let s: Vec<String> = seq.iter().map(ToString::to_string).collect();
    format!("s:{shape}:{}:{}", u8::from(grouped), s.join(","))
}

fn op_name(op: usize) -> &'static str {
    if op == RESET {
        "reset"
    } else if op > RESET {
        TWICE[op - RESET - 1]
    } else {
        OPS[op]
    }
}

/// Every sequence of `len` operations, one with a tuple that names a component twice, and one more.
fn shapes_twice(ctx: &Ctx, len: usize) {
    let (runs, steps) = (AtomicU64::new(0), AtomicU64::new(0));
    let n = RESET + 1;
    ctx.parallel(SHAPES.len() * 2 * n, |job| {
        let (shape, rest) = (job / (2 * n), job % (2 * n));
        let (grouped, first) = (rest % 2 == 1, rest / 2);
        for middle in 0..n.pow(len as u32 - 1) {
            let mut seq = vec![first];
            let mut m = middle;
            for _ in 1..len {
                seq.push(m % n);
                m /= n;
            }
            for op in 0..TWICE.len() {
                for last in 0..n {
                    let mut seq = seq.clone();
                    seq.extend([RESET + 1 + op, last]);
                    let case = encode(shape, grouped, &seq);
                    ctx.begin(&case);
                    match (SHAPES[shape].1)(grouped, &seq) {
                        Ok(k) => {
                            runs.fetch_add(1, Ordering::Relaxed);
                            steps.fetch_add(k as u64, Ordering::Relaxed);
                        }
                        Err(m) => {
                            ctx.violation(&case, &format!("{}: {m}", SHAPES[shape].0));
                            return;
                        }
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    let (runs, steps) = (runs.into_inner(), steps.into_inner());
    ctx.add("transitions", steps);
    ctx.add("traces_validated_against_impl", runs);
    ctx.add("sequences_with_repeated_components", runs);
}

/// Grows a world of one shape to `n` entities, and empties it in some order.
fn grow_shape<T: Shape>(grouped: bool, how: usize, n: usize) -> Result<usize, String> {
    let steps = guarded(|| {
        begin_run();
        let mut w = alloc::tagged(|| {
            let mut b = World::builder();
            b.register::<T>().register::<P>();
            b.set_layout(layout::<T>(grouped));
            b.build()
        });
        let mut ents: Vec<Ent> = Vec::new();
        let mk = || {
            let t = token::<T>();
            (alloc::untagged(|| T::make(t)), t)
        };
        match how % 3 {
            0 => {
                for i in 0..n {
                    let (t, tok) = mk();
                    let e = alloc::tagged(|| w.create((t,)));
                    ents.push(Ent { e, t: Some(tok), p: None });
                    if i % 3 != 1 {
                        let (p, tok) = partner();
                        alloc::tagged(|| w.insert(e, (p,)));
                        ents[i].p = Some(tok);
                    }
                }
            }
            1 => {
                let mut toks = Vec::new();
                let items: Vec<(T, P)> = (0..n)
                    .map(|_| {
                        let ((t, a), (p, b)) = (mk(), partner());
                        toks.push((a, b));
                        (t, p)
                    })
                    .collect();
                let es: Vec<Entity> = alloc::tagged(|| {
                    let s = w.extend(items);
                    alloc::untagged(|| s.to_vec())
                });
                ents.extend(es.into_iter().zip(toks).map(|(e, (t, p))| Ent { e, t: Some(t), p: Some(p) }));
            }
            _ => {
                let es: Vec<Entity> = alloc::tagged(|| {
                    let s = w.extend(std::iter::repeat_n((), n));
                    alloc::untagged(|| s.to_vec())
                });
                ents.extend(es.into_iter().map(|e| Ent { e, t: None, p: None }));
                for x in ents.iter_mut().rev() {
                    let ((t, a), (p, b)) = (mk(), partner());
                    alloc::tagged(|| w.insert(x.e, (p, t)));
                    (x.t, x.p) = (Some(a), Some(b));
                }
            }
        }
        check_world::<T>(&w, &ents, grouped).map_err(|m| format!("{n} entities: {m}"))?;
        let mut steps = n;
        match how / 3 {
            0 => {}
            1 => {
                alloc::tagged(|| w.clear());
                ents.clear();
                check_world::<T>(&w, &ents, grouped).map_err(|m| format!("after clearing: {m}"))?;
            }
            _ => {
                let mut i = 0;
                while !ents.is_empty() {
                    let at = [0, ents.len() - 1, ents.len() / 2][i % 3];
                    let x = &mut ents[at];
                    if i % 2 == 0 {
                        let (t,) = alloc::tagged(|| w.remove::<(T,)>(x.e));
                        if t.as_ref().map(|t| x.t.is_some_and(|k| t.is(k))) != x.t.take().map(|_| true) {
                            err!("remove returned a wrong value with {} entities left", ents.len());
                        }
                    }
                    let e = ents[at].e;
                    if !alloc::tagged(|| w.destroy(e)) {
                        err!("destroy returned false");
                    }
                    ents.remove(at);
                    i += 1;
                    steps += 1;
                    if ents.len() % 16 == 0 || ents.len().is_power_of_two() {
                        check_world::<T>(&w, &ents, grouped).map_err(|m| format!("{} entities left: {m}", ents.len()))?;
                    }
                }
            }
        }
        alloc::tagged(|| drop(w));
        Exec::side_errors()?;
        if ledger::live_count() != 0 || ledger::live_zst() != 0 {
            err!("{} values were not dropped with the world", ledger::live_count() as i64 + ledger::live_zst());
        }
        Ok(steps)
    })?;
    Exec::check_balance()?;
    Ok(steps)
}

/// Every shape, grown to every size around which a storage may grow.
fn growth(ctx: &Ctx, max: usize) {
    let mut sizes: Vec<usize> = (1..=40).collect();
    let mut p = 64;
    while p < max {
        sizes.extend([p - 1, p, p + 1, p + p / 2]);
        p *= 2;
    }
    let steps = AtomicU64::new(0);
    ctx.parallel(SHAPES.len() * 2 * sizes.len(), |job| {
        let (shape, rest) = (job % SHAPES.len(), job / SHAPES.len());
        let (grouped, n) = (rest % 2 == 1, sizes[rest / 2]);
        for how in 0..9 {
            let case = format!("g:{shape}:{}:{how}:{n}", u8::from(grouped));
            ctx.begin(&case);
            match (SHAPES[shape].2)(grouped, how, n) {
                Ok(k) => {
                    steps.fetch_add(k as u64, Ordering::Relaxed);
                }
                Err(m) => return ctx.violation(&case, &format!("{}: {m}", SHAPES[shape].0)),
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("transitions", steps.into_inner());
    ctx.add("traces_validated_against_impl", (SHAPES.len() * sizes.len() * 18) as u64);
    ctx.note("growth", &format!("every shape grown to {} sizes up to {max} in 3 ways, and emptied in 3 ways", sizes.len()));
}

fn shapes(ctx: &Ctx, len: usize) {
    let (runs, steps) = (AtomicU64::new(0), AtomicU64::new(0));
    let states = std::sync::Mutex::new(0u64);
    // One job per shape, initial layout and first two operations.
    let n = RESET + 1;
    ctx.parallel(SHAPES.len() * 2 * n * n, |job| {
        let (shape, rest) = (job / (2 * n * n), job % (2 * n * n));
        let grouped = rest % 2 == 1;
        let mut seq = vec![rest / 2 / n, rest / 2 % n];
        seq.resize(len, 0);
        // Odometer over the remaining positions; a step that cannot be taken skips its whole subtree.
        loop {
            let case = encode(shape, grouped, &seq);
            ctx.begin(&case);
            let stuck = match (SHAPES[shape].1)(grouped, &seq) {
                Ok(k) => {
                    runs.fetch_add(1, Ordering::Relaxed);
                    steps.fetch_add(k as u64, Ordering::Relaxed);
                    k
                }
                Err(m) => {
                    ctx.violation(&case, &format!("{}: {m}", SHAPES[shape].0));
                    return;
                }
            };
            if ctx.stopped() {
                return;
            }
            let mut i = stuck.min(len - 1);
            if i < 2 {
                break;
            }
            for s in &mut seq[i + 1..] {
                *s = 0;
            }
            loop {
                seq[i] += 1;
                if seq[i] < n {
                    break;
                }
                seq[i] = 0;
                i -= 1;
                if i < 2 {
                    break;
                }
            }
            if i < 2 {
                break;
            }
        }
        *states.lock().unwrap() += 1;
    });
    let (runs, steps) = (runs.into_inner(), steps.into_inner());
    ctx.add("transitions", steps);
    ctx.add("traces_validated_against_impl", runs);
    ctx.add("shape_sequences", runs);
    ctx.note(
        "component_shapes",
        &format!(
            "{} types ({}), each with every sequence of at most {len} of {n} operations, grouped and ungrouped",
            SHAPES.len(),
            SHAPES.iter().map(|s| s.0).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(", ")
        ),
    );
    ctx.sample(format!("shape {}: {:?}", SHAPES[8].0, [0, 3, 9, 11].map(op_name)));
}

// ---------------------------------------------------------------------------------------------

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities",
            layout,
            registered: 0b0111,
            create: vec![0, 3, 7],
            extend: vec![(7, 2)],
            insert: vec![1, 2, 4, 7],
            remove: vec![1, 4, 3],
            delete: vec![2, 7],
            clear: true,
            ..Cfg::default()
        });
    }
    let layouts: &[u8] = if thorough { &[0, 3, 4, 5, 6, 13, 15, 16] } else { &[0, 6, 15] };
    for &layout in layouts {
        v.push(Cfg {
            name: "growing storage",
            layout,
            registered: 0b1111,
            create: vec![15],
            extend: vec![(15, 5), (3, 4), (12, 3)],
            insert: vec![6, 9],
            remove: vec![1, 10],
            delete: vec![2, 12],
            clear: true,
            reset: true,
            layouts: vec![0, 6],
            max_live: 10,
            max_index: 10,
            depth: if thorough { 7 } else { 5 },
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "deferred creation, layouts and registration",
        layout: 0,
        registered: 0b0001,
        create: vec![0, 1, 7],
        insert: vec![2, 12],
        remove: vec![1],
        atomic: true,
        clear: true,
        reset: true,
        layouts: vec![0, 3, 6],
        register: vec![1, 3],
        max_live: 2,
        max_index: 2,
        depth: if thorough { 64 } else { 9 },
        ..Cfg::default()
    });
    // Larger populations, up to a depth.
    for layout in [0, 3, 6] {
        for n in [11, 37, 130, 400] {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![15],
                    extend: vec![(3, 1)],
                    insert: vec![4, 15],
                    remove: vec![1, 15],
                    delete: vec![3],
                    clear: true,
                    layouts: vec![0, 15],
                    depth: if thorough { 3 } else { 2 },
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v
}

struct C08(BfsCheck<Basic>);

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        self.0.explore(ctx);
        if !ctx.stopped() {
            shapes_twice(ctx, if ctx.tier == Tier::Quick { 2 } else { 3 });
            growth(ctx, if ctx.tier == Tier::Quick { 300 } else { 2000 });
            shapes(ctx, if ctx.tier == Tier::Quick { 5 } else { 6 });
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        if let Some(c) = case.strip_prefix("g:") {
            let p: Vec<usize> = c.split(':').filter_map(|x| x.parse().ok()).collect();
            return (SHAPES[p[0]].2)(p[1] == 1, p[2], p[3]).map(|_| ());
        }
        let Some(c) = case.strip_prefix("s:") else { return self.0.replay(case) };
        let p: Vec<&str> = c.split(':').collect();
        let seq: Vec<usize> = p[2].split(',').filter_map(|x| x.parse().ok()).collect();
        let r = catch_unwind(AssertUnwindSafe(|| (SHAPES[p[0].parse::<usize>().unwrap()].1)(p[1] == "1", &seq)));
        r.unwrap_or_else(|_| Err(last_panic())).map(|_| ())
    }
    fn explain(&self, case: &str) -> String {
        if let Some(c) = case.strip_prefix("g:") {
            let p: Vec<usize> = c.split(':').filter_map(|x| x.parse().ok()).collect();
            return format!(
                "component T: {}; {}: {}, then {}",
                SHAPES[p[0]].0,
                if p[1] == 1 { "T and P grouped" } else { "no groups" },
                [
                    format!("{} entities created with T, two thirds of which then get a P", p[3]),
                    format!("{} entities created by extend with (T, P)", p[3]),
                    format!("{} entities created by extend, which then get (P, T), last first", p[3])
                ][p[2] % 3],
                ["drop", "clear", "remove and destroy one by one: first, last, middle, ..."][p[2] / 3]
            );
        }
        let Some(c) = case.strip_prefix("s:") else { return self.0.explain(case) };
        let p: Vec<&str> = c.split(':').collect();
        let ops: Vec<&str> = p[2].split(',').filter_map(|x| x.parse().ok()).map(op_name).collect();
        format!(
            "component T: {}; {}: {}",
            SHAPES[p[0].parse::<usize>().unwrap()].0,
            if p[1] == "1" { "T and P grouped" } else { "no groups" },
            ops.join("; ")
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = self.0.assumptions();
        v.push("memory errors are noticed by a checking allocator (guard zones, poisoned and quarantined blocks, layouts of frees) and by the values themselves".into());
        v
    }
}

fn main() {
    engine::runner::main(&C08(BfsCheck { id: "C08", cfgs, obs: Basic, assumptions: &[] }))
}
