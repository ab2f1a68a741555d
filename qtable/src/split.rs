//! Every way of consuming an iterator, after every number of items taken one by one.

use crate::qcheck::expected;
use crate::{desc, Desc, Item, QQ, SAME, W};
use mc::comps::{A, B, C};
use mc::err;
use mc::exec::Exec;
use sparsey::entity::Entity;
use sparsey::query::Iter;
use sparsey::World;

/// Ways of consuming what is left of an iterator.
const MODES: [&str; 12] =
    ["next", "fold", "for_each", "by_ref", "nth", "nth 1", "nth over", "nth max", "skip", "collect", "last", "count"];

/// One way of consuming an iterator.
pub struct Split {
    /// Items taken with `next`, and the rest.
    pub items: Vec<Item>,
    pub taken: usize,
    /// Size hints after 0, 1, 2... items, and some more that belong to the last position.
    pub hints: Vec<(usize, Option<usize>)>,
    /// Whether something was yielded after the end, or a length was wrong.
    pub revived: bool,
}

pub struct Splits {
    pub dense: bool,
    pub runs: Vec<(&'static str, &'static str, usize, Split)>,
}

/// Consumes what is left of an iterator with `how`; items that were not seen are shown as missing.
fn consume<J: Iterator>(how: &str, mut it: J, obs: fn(&J::Item) -> Item, s: &mut Split, total: usize) {
    match how {
        "next" => {
            while let Some(i) = it.next() {
                s.items.push(obs(&i));
                s.hints.push(it.size_hint());
            }
            for _ in 0..3 {
                s.revived |= it.next().is_some();
                s.hints.push(it.size_hint());
            }
            let mut n = 0;
            it.for_each(|_| n += 1);
            s.revived |= n != 0;
        }
        "fold" => {
            let n = s.items.len();
            let m = it.fold(n, |n, i| {
                s.items.push(obs(&i));
                n + 1
            });
            if m != s.items.len() {
                s.revived = true;
            }
        }
        "for_each" => it.for_each(|i| s.items.push(obs(&i))),
        "by_ref" => {
            let items = &mut s.items;
            let _ = it.by_ref().try_for_each(|i| {
                items.push(obs(&i));
                if items.len() % 2 == 0 { Err(()) } else { Ok(()) }
            });
            it.for_each(|i| items.push(obs(&i)));
        }
        "nth" => {
            while let Some(i) = it.nth(0) {
                s.items.push(obs(&i));
            }
        }
        "nth 1" => {
            while let Some(i) = it.nth(1) {
                s.items.extend([[SAME; W], obs(&i)]);
            }
            if s.items.len() < total {
                s.items.push([SAME; W]);
            }
        }
        "nth over" | "nth max" => {
            s.revived |= it.nth(if how == "nth max" { usize::MAX } else { total + 1 }).is_some();
            s.revived |= it.size_hint().0 != 0;
            s.revived |= it.next().is_some();
            s.revived |= it.count() != 0;
            s.items.resize(total, [SAME; W]);
        }
        "skip" => {
            let rest: Vec<Item> = it.skip(1).map(|i| obs(&i)).collect();
            if s.items.len() < total {
                s.items.push([SAME; W]);
            }
            s.items.extend(rest);
        }
        "collect" => s.items.extend(it.map(|i| obs(&i)).collect::<Vec<_>>()),
        "last" => {
            let l = it.last().map(|i| obs(&i));
            while s.items.len() + usize::from(l.is_some()) < total {
                s.items.push([SAME; W]);
            }
            s.items.extend(l);
        }
        _ => {
            let n = it.count();
            for _ in 0..n {
                s.items.push([SAME; W]);
            }
        }
    }
}

/// Consumes in every way the rest after every number of items taken one by one.
fn split<G: QQ, I: QQ, E: QQ>(w: &World) -> Splits {
    let mut out = Splits { dense: false, runs: vec![] };
    let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
    let total = {
        let mut n = 0;
        for _ in &mut q {
            n += 1;
        }
        n
    };
    out.dense = q.iter().is_dense();
    for k in 0..=total + 1 {
        // The iterator itself, the one inside, and one made from the one inside.
        for inner in ["", "inner ", "from inner "] {
            for how in MODES {
                if inner == "from inner " && how != "fold" {
                    continue;
                }
                let mut it = q.iter();
                let mut s = Split { items: vec![], taken: 0, hints: vec![], revived: false };
                s.hints.push(it.size_hint());
                for _ in 0..k {
                    match it.next() {
                        Some(i) => {
                            s.items.push(G::obs(&i));
                            s.taken += 1;
                        }
                        None => break,
                    }
                    s.hints.push(it.size_hint());
                }
                match (inner, it) {
                    ("", it) => consume(how, it, |i| G::obs(i), &mut s, total),
                    ("inner ", Iter::Dense(it)) => {
                        s.hints.pop();
                        s.hints.push(it.size_hint());
                        s.revived |= it.len() != it.size_hint().0;
                        consume(how, it, |i| G::obs(i), &mut s, total);
                    }
                    ("inner ", Iter::Sparse(it)) => {
                        s.hints.pop();
                        s.hints.push(it.size_hint());
                        consume(how, it, |i| G::obs(i), &mut s, total);
                    }
                    (_, it) => {
                        let it: Iter<'_, G, I, E> = match it {
                            Iter::Dense(it) => it.into(),
                            Iter::Sparse(it) => it.into(),
                        };
                        s.hints.push(it.size_hint());
                        consume(how, it, |i| G::obs(i), &mut s, total);
                    }
                }
                out.runs.push((inner, how, k, s));
            }
        }
    }
    out
}

pub struct SplitDesc {
    pub desc: Desc,
    pub split: fn(&World) -> Splits,
}

fn split_desc<G: QQ, I: QQ, E: QQ>() -> SplitDesc {
    SplitDesc { desc: desc::<G, I, E>(), split: split::<G, I, E> }
}

macro_rules! leaf_split {
    ($o:ident [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        $o.push(split_desc::<(Entity, $($g,)*), ($($i,)*), ($($x,)*)>());
    };
}

macro_rules! roles_split {
    ($o:ident [] $g:tt $i:tt $x:tt) => { leaf_split!($o $g $i $x); };
    ($o:ident [$T:ident $($r:ident)*] [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        roles_split!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)*]);
        roles_split!($o [$($r)*] [$($g,)* &'static mut $T,] [$($i,)*] [$($x,)*]);
        roles_split!($o [$($r)*] [$($g,)* Option<&'static $T>,] [$($i,)*] [$($x,)*]);
        roles_split!($o [$($r)*] [$($g,)*] [$($i,)* &'static $T,] [$($x,)*]);
        roles_split!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)* &'static $T,]);
    };
}

pub fn table() -> Vec<SplitDesc> {
    let mut o = Vec::new();
    roles_split!(o [A B C] [] [] []);
    o.push(split_desc::<&'static A, (), ()>());
    o.push(split_desc::<&'static mut B, (), &'static A>());
    o.push(split_desc::<(&'static B, &'static A), (), ()>());
    o.push(split_desc::<Entity, (), ()>());
    o.push(split_desc::<(), (), ()>());
    o.push(split_desc::<(), &'static A, ()>());
    o.push(split_desc::<(Entity, &'static A), &'static B, Entity>());
    o
}

/// Checks everything about the iterators of one query in one state.
pub fn check(x: &Exec, d: &SplitDesc) -> Result<(), String> {
    let s = (d.split)(&x.w);
    let name = d.desc.name;
    let base = &s.runs.iter().find(|r| (r.0, r.1, r.2) == ("", "next", 0)).unwrap().3.items;
    let total = base.len();
    let mut sorted = base.clone();
    sorted.sort_unstable();
    let expect = expected(x, &d.desc);
    if sorted != expect {
        err!("{}: yields {base:x?}, expected {expect:x?}", name());
    }
    for (inner, how, k, r) in &s.runs {
        let same = r.items.len() == total
            && r.items.iter().zip(base).all(|(a, b)| *a == *b || *a == [SAME; W] && !matches!(*how, "next" | "fold"));
        if !same {
            err!("{}: taking {k} and then {inner}{how} yields {:x?}, expected {base:x?}", name(), r.items);
        }
        if r.taken != total.min(*k) {
            err!("{}: took {} of {total} items with next", name(), r.taken);
        }
        if r.revived {
            err!("{}: taking {k} and then {inner}{how}: the iterator yields after its end, or reports a wrong length", name());
        }
        for (i, (lo, hi)) in r.hints.iter().enumerate() {
            let done = if matches!(*how, "next") { i } else { i.min(r.taken) };
            let left = total.saturating_sub(done);
            let ok = if s.dense { *lo == left && *hi == Some(left) } else { *lo <= left && hi.map_or(true, |h| h >= left) };
            if !ok {
                err!("{}: {left} items are left, but size_hint is ({lo}, {hi:?})", name());
            }
        }
    }
    Ok(())
}
