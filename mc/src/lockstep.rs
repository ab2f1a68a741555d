//! Comparing a world that was wiped with a new one.

use crate::comps::*;
use crate::exec::{Exec, Row};
use crate::op::Op;
use crate::{err, observe};
use engine::alloc;
use sparsey::query::Query;

/// Operations that follow a wipe.
pub const NEXT: &[Op] = &[
    Op::Create(0),
    Op::Create(7),
    Op::Create(1),
    Op::Extend(3, 2),
    Op::Atomic,
    Op::Maintain,
    Op::Insert(0, 6),
    Op::Remove(0, 1),
    Op::Delete(0, 2),
    Op::Destroy(0),
    Op::Clear,
    Op::Layout(3),
    Op::Register(3),
];

/// What a world shows, with entities named by position in creation order.
#[derive(PartialEq, Debug)]
pub struct Shown {
    rows: Vec<Row>,
    pending: usize,
    registered: Vec<bool>,
    entities: usize,
    grouped: Vec<(bool, Option<usize>)>,
}

fn grouped<G: Query>(x: &Exec, need: u8, out: &mut Vec<(bool, Option<usize>)>) {
    if x.m.registered & need == need {
        let mut q = x.w.query_all::<G>();
        let dense = q.iter().is_dense();
        let n = q.iter().count();
        let sliced = q.slice().is_some().then_some(n);
        out.push((dense, sliced));
    }
}

pub fn show(x: &Exec) -> Shown {
    let mut g = Vec::new();
    grouped::<(&A, &B)>(x, 3, &mut g);
    grouped::<(&A, &B, &C)>(x, 7, &mut g);
    grouped::<(&B, &C)>(x, 6, &mut g);
    grouped::<(&A, &C)>(x, 5, &mut g);
    grouped::<(&C, &D)>(x, 12, &mut g);
    grouped::<(&A, &B, &C, &D)>(x, 15, &mut g);
    Shown {
        // Values are numbered per run, so only presence is compared here; `observe` compares values.
        rows: x.m.ents.iter().map(|r| r.1.map(|v| v.map(|_| 0))).collect(),
        pending: x.m.pending.len(),
        registered: vec![
            x.w.is_registered::<A>(),
            x.w.is_registered::<B>(),
            x.w.is_registered::<C>(),
            x.w.is_registered::<D>(),
        ],
        entities: x.w.entities().len(),
        grouped: g,
    }
}

pub fn applicable(x: &Exec, op: Op) -> bool {
    match op {
        Op::Create(m) | Op::Extend(m, _) => m & !x.m.registered == 0,
        Op::Insert(s, m) | Op::Remove(s, m) | Op::Delete(s, m) => (s as usize) < x.m.ents.len() && m & !x.m.registered == 0,
        Op::Destroy(s) => (s as usize) < x.m.ents.len(),
        _ => true,
    }
}

/// Runs `cont` on a wiped world and on a new one with the same configuration, and compares them. Returns
/// the new world unless some operation does not apply.
pub fn continue_both(x: &mut Exec, what: &str, cont: &[Op]) -> Result<Option<Exec>, String> {
    let mut fresh = Exec::new(x.m.layout, x.m.registered);
    for (i, op) in cont.iter().enumerate() {
        let ok = applicable(x, *op);
        if ok != applicable(&fresh, *op) {
            err!("{what}, then {cont:?}: step {i} applies to one world only");
        }
        if !ok {
            return Ok(None);
        }
        x.apply(*op).map_err(|m| format!("{what}, then {cont:?}: {m}"))?;
        fresh.apply(*op).map_err(|m| format!("new world, {cont:?}: {m}"))?;
    }
    let (a, b) = (show(x), show(&fresh));
    if a != b {
        err!("{what}, then {cont:?}: shows {a:?}, a new world shows {b:?}");
    }
    observe::basic(x).map_err(|m| format!("{what}, then {cont:?}: {m}"))?;
    Ok(Some(fresh))
}

pub fn drop_world(x: Exec) {
    let Exec { w, .. } = x;
    alloc::tagged(|| drop(w));
}
