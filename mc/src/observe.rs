//! Compares everything that can be seen of a world with the model.

use crate::comps::*;
use crate::err;
use crate::exec::{entity, Exec, Row};
use sparsey::entity::Entity;
use std::any::TypeId;

/// Runs `$body` with `$T` bound to each registered component type.
#[macro_export]
macro_rules! for_registered {
    ($mask:expr, $T:ident => $body:expr) => {{
        if $mask >> 0 & 1 == 1 {
            type $T = $crate::comps::A;
            $body
        }
        if $mask >> 1 & 1 == 1 {
            type $T = $crate::comps::B;
            $body
        }
        if $mask >> 2 & 1 == 1 {
            type $T = $crate::comps::C;
            $body
        }
        if $mask >> 3 & 1 == 1 {
            type $T = $crate::comps::D;
            $body
        }
    }};
}

/// The entities listed by the world are exactly the living ones, each once.
pub fn entities(x: &Exec) -> Result<(), String> {
    let es = x.w.entities();
    if es.len() != x.m.ents.len() {
        err!("entities() lists {} entities, expected {}: {es:?}", es.len(), x.m.ents.len());
    }
    if es.len() > 256 {
        let mut listed = es.to_vec();
        listed.sort_unstable();
        let mut want: Vec<Entity> = x.m.ents.iter().map(|r| r.0).collect();
        want.sort_unstable();
        if let Some((a, b)) = listed.iter().zip(&want).find(|(a, b)| a != b) {
            err!("entities() lists {a:?} where {b:?} is expected, in order");
        }
    }
    for (e, _) in x.m.ents.iter().take_while(|_| es.len() <= 256) {
        let n = es.iter().filter(|o| *o == e).count();
        if n != 1 {
            err!("entities() lists the living entity {e:?} {n} times");
        }
    }
    if x.w.is_empty() != x.m.ents.is_empty() {
        err!("is_empty() is wrong");
    }
    Ok(())
}

/// Exactly the living handles are contained.
pub fn liveness(x: &Exec, tracked: &[Entity]) -> Result<(), String> {
    for e in tracked {
        let c = x.w.contains_entity(*e);
        if c != x.m.alive(*e) {
            err!("contains_entity({e:?}) is {c}");
        }
    }
    Ok(())
}

/// One view agrees with the model.
fn view<T: Comp>(x: &Exec, tracked: &[Entity]) -> Result<(), String> {
    let v = x.w.borrow::<T>();
    let es = v.entities();
    let vs = v.as_slice();
    let n = x.m.ents.iter().filter(|r| r.1[T::I].is_some()).count();
    if es.len() != n || vs.len() != n || v.len() != n || v.is_empty() != (n == 0) {
        err!(
            "view of {}: {} entities, {} values, len {}, expected {n}",
            T::NAME,
            es.len(),
            vs.len(),
            v.len()
        );
    }
    for (i, (e, c)) in es.iter().zip(vs).enumerate() {
        let expect = x.m.get(*e).and_then(|r| r[T::I]);
        let Some(expect) = expect else {
            err!("view of {} lists {e:?}, which is not a living entity with that component", T::NAME);
        };
        if n <= 256 && es[..i].contains(e) {
            err!("view of {} lists {e:?} twice", T::NAME);
        }
        let got = c.val();
        if got != expect {
            err!("view of {}: {e:?} has value {got}, expected {expect}", T::NAME);
        }
    }
    if n > 256 {
        let mut listed = es.to_vec();
        listed.sort_unstable();
        if let Some(p) = listed.windows(2).find(|p| p[0] == p[1]) {
            err!("view of {} lists {:?} twice", T::NAME, p[0]);
        }
    }
    for e in tracked {
        let expect = x.m.get(*e).and_then(|r| r[T::I]);
        let got = v.get(*e).map(Comp::val);
        if got != expect {
            err!("{} of {e:?} is {got:?}, expected {expect:?}", T::NAME);
        }
        if v.contains(*e) != expect.is_some() {
            err!("view of {}: contains({e:?}) is {}", T::NAME, v.contains(*e));
        }
    }
    Ok(())
}

/// Lookups by bare index, which is what iteration does, agree with the model.
fn raw<T: Comp>(x: &Exec) -> Result<(), String> {
    let mut n = 0;
    let mut bad = None;
    x.w.for_each::<(sparsey::Entity, Option<&T>)>(|(e, c)| {
        n += 1;
        let got = c.map(Comp::val);
        let expect = x.m.get(e).and_then(|r| r[T::I]);
        if got != expect {
            bad = Some((e, got, expect));
        }
    });
    if let Some((e, got, expect)) = bad {
        err!("iterating Option<&{}>: {e:?} has {got:?}, expected {expect:?}", T::NAME);
    }
    if n != x.m.ents.len() {
        err!("iterating Option<&{}> visits {n} entities, expected {}", T::NAME, x.m.ents.len());
    }
    Ok(())
}

pub fn views(x: &Exec, tracked: &[Entity]) -> Result<(), String> {
    for_registered!(x.m.registered, T => {
        view::<T>(x, tracked)?;
        raw::<T>(x)?;
    });
    Ok(())
}

/// Everything that is cheap to look at.
pub fn basic(x: &Exec) -> Result<(), String> {
    Exec::side_errors()?;
    entities(x)?;
    let t = x.m.tracked();
    liveness(x, &t)?;
    views(x, &t)?;
    Exec::side_errors()
}

/// Registered types are exactly the expected ones.
pub fn registration(x: &Exec) -> Result<(), String> {
    macro_rules! one {
        ($($T:ident)*) => {$(
            let expect = x.m.registered >> $T::I & 1 == 1;
            if x.w.is_registered::<$T>() != expect || x.w.is_registered_dyn(TypeId::of::<$T>()) != expect {
                err!("{} is {}registered", $T::NAME, if expect { "not " } else { "" });
            }
        )*};
    }
    one!(A B C D);
    Ok(())
}

/// Lookups of single components through queries.
pub fn lookups(x: &Exec, tracked: &[Entity]) -> Result<(), String> {
    fn one<T: Comp>(x: &Exec, tracked: &[Entity]) -> Result<(), String> {
        for e in tracked {
            let expect = x.m.get(*e).and_then(|r| r[T::I]);
            let got = x.w.query_one::<&T>().get(*e).map(Comp::val);
            if got != expect {
                err!("query_one::<&{}>().get({e:?}) is {got:?}, expected {expect:?}", T::NAME);
            }
            if x.w.contains::<&T>(*e) != expect.is_some() {
                err!("contains::<&{}>({e:?}) is {}", T::NAME, expect.is_none());
            }
        }
        let mut seen: Vec<(Entity, u32)> = Vec::new();
        x.w.for_each::<(Entity, &T)>(|(e, c)| seen.push((e, c.val())));
        seen.sort_unstable();
        let mut expect: Vec<(Entity, u32)> =
            x.m.ents.iter().filter_map(|r| r.1[T::I].map(|v| (r.0, v))).collect();
        expect.sort_unstable();
        if seen != expect {
            err!("for_each::<(Entity, &{})> visits {seen:?}, expected {expect:?}", T::NAME);
        }
        Ok(())
    }
    for_registered!(x.m.registered, T => one::<T>(x, tracked)?);
    Ok(())
}

/// Operations on handles that are not alive change nothing.
pub fn dead_handles(x: &mut Exec) -> Result<(), String> {
    let t = x.m.tracked();
    let masks = x.m.registered;
    for e in t {
        if x.m.alive(e) {
            continue;
        }
        if masks != 0 {
            x.insert(e, masks)?;
            x.remove(e, masks)?;
            x.delete(e, masks)?;
            let single = 1 << masks.trailing_zeros();
            x.insert(e, single)?;
            x.remove(e, single)?;
        }
        x.insert(e, 0)?;
        x.destroy(e)?;
    }
    basic(x)
}

/// Everything, including what happens to handles that are not alive.
pub fn full(x: &mut Exec) -> Result<(), String> {
    let t = x.m.tracked();
    registration(x)?;
    lookups(x, &t)?;
    dead_handles(x)
}

/// Rows sorted by entity.
pub fn sorted(x: &Exec) -> Vec<(Entity, Row)> {
    let mut v = x.m.ents.clone();
    v.sort_unstable_by_key(|r| (r.0.index, r.0.version));
    v
}

pub fn last_entity() -> Entity {
    entity(u32::MAX, u32::MAX)
}
