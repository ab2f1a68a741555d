//! Compares what queries show with the model.

use crate::{Desc, Item, Kind, Part, WriteBy, SAME};
use mc::err;
use mc::exec::{is_group, row_mask, Exec, LAYOUTS};
use sparsey::entity::Entity;

fn sorted(v: &[Item]) -> Vec<Item> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

/// Whether the query must be dense: its components are exactly those of a group, or those of a group
/// except the only one that the next larger nested group adds.
pub fn must_be_dense(layout: u8, d: &Desc) -> bool {
    let req = d.required();
    if d.nothing || !is_group(layout, req) {
        return false;
    }
    if d.exc == 0 {
        return true;
    }
    // The next larger group.
    let next = LAYOUTS[layout as usize]
        .iter()
        .filter(|g| **g & req == req && **g != req)
        .min_by_key(|g| g.count_ones());
    next.is_some_and(|g| g & !req == d.exc && d.exc.count_ones() == 1)
}

fn repeated(parts: &[Part], inc: u8) -> bool {
    let mut seen = inc;
    for p in parts {
        if matches!(p.kind, Kind::Ref | Kind::Mut) {
            if seen >> p.comp & 1 == 1 {
                return true;
            }
            seen |= 1 << p.comp;
        }
    }
    false
}

pub fn expected(x: &Exec, d: &Desc) -> Vec<Item> {
    let mut v: Vec<Item> =
        x.m.ents.iter().filter(|r| d.matches(row_mask(&r.1))).map(|r| d.item(r.0, &r.1)).collect();
    v.sort_unstable();
    v
}

/// One query against the model.
pub fn check(x: &Exec, d: &Desc, handles: &[Entity]) -> Result<(), String> {
    let s = (d.see)(&x.w, handles);
    let expect = expected(x, d);
    if sorted(&s.next) != expect {
        err!("{}: iteration yields {:x?}, expected {expect:x?}", (d.name)(), s.next);
    }
    for (how, v) in [("fold", &s.fold), ("for_each", &s.for_each), ("into_iter", &s.into_iter)] {
        if *v != s.next {
            err!("{}: {how} yields {v:x?}, next yields {:x?}", (d.name)(), s.next);
        }
    }
    if s.dense == s.sparse {
        err!("{}: is_dense and is_sparse agree", (d.name)());
    }
    for (e, (c, g, m)) in handles.iter().zip(&s.one) {
        let row = x.m.get(*e);
        if row.is_none() && d.required() == 0 && !d.nothing {
            // Not specified for handles that are not alive.
            continue;
        }
        let expect = row.filter(|r| d.matches(row_mask(r))).map(|r| d.item(*e, r));
        if *g != expect || *m != expect || *c != expect.is_some() {
            err!(
                "{}: for {e:?}, get is {g:x?}, map is {m:x?}, contains is {c}, expected {expect:x?}",
                (d.name)()
            );
        }
    }
    Ok(())
}

/// Density and slices of one query.
pub fn check_slices(x: &Exec, d: &Desc) -> Result<(), String> {
    let s = (d.see)(&x.w, &[]);
    if must_be_dense(x.m.layout, d) && !repeated(d.parts, d.inc) {
        if !s.dense {
            err!("{}: not dense, although it is grouped", (d.name)());
        }
        if s.slice.is_none() {
            err!("{}: cannot be sliced, although it is grouped", (d.name)());
        }
    }
    let Some(slices) = s.slice else { return Ok(()) };
    let expect = expected(x, d);
    if slices.len() != d.parts.len() {
        err!("harness: {} slices", slices.len());
    }
    for (i, sl) in slices.iter().enumerate() {
        let optional = matches!(d.parts[i].kind, Kind::OptRef | Kind::OptMut);
        match sl {
            Some(_) if optional => err!("harness: slice of an optional part"),
            None if optional => {}
            None => err!("harness: part without a slice"),
            Some(sl) => {
                // Position i of the slices is the i-th item of the iteration.
                let column: Vec<u64> = s.next.iter().map(|o| o[i]).collect();
                if *sl != column {
                    err!("{}: slice {i} is {sl:x?}, iteration yields {column:x?}", (d.name)());
                }
                if sl.len() != expect.len() {
                    err!("{}: slice {i} has length {}, expected {}", (d.name)(), sl.len(), expect.len());
                }
            }
        }
    }
    if sorted(&s.next) != expect {
        err!("{}: sliced items are {:x?}, expected {expect:x?}", (d.name)(), s.next);
    }
    Ok(())
}

/// Values written through items land in the world.
pub fn check_writes(x: &mut Exec, d: &Desc, by: WriteBy, handles: &[Entity]) -> Result<(), String> {
    let Some(write) = d.write else { return Ok(()) };
    if !d.writes() || !d.has_entity() {
        return Ok(());
    }
    let at = d.parts.iter().position(|p| p.kind == Kind::Entity).unwrap();
    let live: Vec<Entity> = handles.iter().copied().filter(|e| x.m.alive(*e)).collect();
    let Some(w) = write(&x.w, by, &live) else { return Ok(()) };
    for (item, new) in w {
        let Some(row) = x.m.ents.iter_mut().find(|r| crate::pack(r.0) == item[at]) else {
            err!("{}: {by:?} yields a dead entity {:x}", (d.name)(), item[at]);
        };
        for (i, p) in d.parts.iter().enumerate() {
            if new[i] != SAME {
                row.1[p.comp] = Some(new[i] as u32);
            }
        }
    }
    mc::observe::views(x, &live).map_err(|m| format!("after writing by {by:?} through {}: {m}", (d.name)()))
}

/// All queries, lookups and writes.
pub fn all(x: &mut Exec, table: &[Desc]) -> Result<(), String> {
    let handles = x.m.tracked();
    for d in table {
        if d.used() & !x.m.registered != 0 {
            continue;
        }
        check(x, d, &handles)?;
    }
    Exec::side_errors()?;
    for d in table {
        if d.used() & !x.m.registered != 0 {
            continue;
        }
        for by in [WriteBy::Next, WriteBy::Fold, WriteBy::One, WriteBy::Slice] {
            check_writes(x, d, by, &handles)?;
        }
    }
    Exec::side_errors()
}

pub fn all_slices(x: &mut Exec, table: &[Desc]) -> Result<(), String> {
    for d in table {
        if d.used() & !x.m.registered == 0 {
            check_slices(x, d)?;
        }
    }
    Exec::side_errors()
}
