//! Which sets of groups are accepted, in every order, and whether the accepted ones work.

use engine::runner::{last_panic, Check, Ctx, Tier};
use mc::err;
use mc::system::guarded;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// Component type number `N`; the value is the number of the entity and of the type.
struct T<const N: usize>(u32);

macro_rules! d {
    ($n:literal) => {
        ComponentData::new::<T<$n>>()
    };
}

const DATA: &[ComponentData] = &[
    d!(0), d!(1), d!(2), d!(3), d!(4), d!(5), d!(6), d!(7), d!(8), d!(9),
    d!(10), d!(11), d!(12), d!(13), d!(14), d!(15), d!(16), d!(17), d!(18), d!(19),
    d!(20), d!(21), d!(22), d!(23), d!(24), d!(25), d!(26), d!(27), d!(28), d!(29),
    d!(30), d!(31), d!(32), d!(33), d!(34), d!(35), d!(36), d!(37), d!(38), d!(39),
    d!(40), d!(41), d!(42), d!(43), d!(44), d!(45), d!(46), d!(47), d!(48), d!(49),
    d!(50), d!(51), d!(52), d!(53), d!(54), d!(55), d!(56), d!(57), d!(58), d!(59),
    d!(60), d!(61), d!(62), d!(63), d!(64), d!(65), d!(66), d!(67), d!(68), d!(69),
    d!(70), d!(71), d!(72), d!(73), d!(74), d!(75), d!(76), d!(77), d!(78), d!(79),
    d!(80), d!(81), d!(82), d!(83), d!(84), d!(85), d!(86), d!(87), d!(88), d!(89),
    d!(90), d!(91), d!(92), d!(93), d!(94), d!(95), d!(96), d!(97), d!(98), d!(99),
    d!(100), d!(101), d!(102), d!(103), d!(104), d!(105), d!(106), d!(107), d!(108), d!(109),
    d!(110), d!(111), d!(112), d!(113), d!(114), d!(115), d!(116), d!(117), d!(118), d!(119),
    d!(120), d!(121), d!(122), d!(123), d!(124), d!(125), d!(126), d!(127), d!(128), d!(129),
    d!(130), d!(131), d!(132), d!(133), d!(134), d!(135), d!(136), d!(137), d!(138), d!(139),
];

type Rows = [(Entity, u32)];

/// What is wrong with a query for all components of a set; `dense`: the set is a group.
type SubCheck = fn(&World, &Rows, bool) -> Result<(), String>;

macro_rules! sub {
    ($mask:expr; $($n:literal $v:ident)*) => {{
        fn check(w: &World, rows: &Rows, dense: bool) -> Result<(), String> {
            let want = rows.iter().filter(|r| r.1 & $mask == $mask).count();
            // The values tell which entity they belong to.
            let who = |vals: &[u32]| -> Result<usize, String> {
                let i = (vals[0] / 100) as usize;
                if vals.iter().any(|v| (v / 100) as usize != i) || rows.get(i).is_none_or(|r| r.1 & $mask != $mask) {
                    err!("yields {vals:?}");
                }
                Ok(i)
            };
            let mut seen = Vec::new();
            let mut q = w.query_all::<($(&T<$n>,)*)>();
            for ($($v,)*) in q.iter() {
                let vals = [$($v.0),*];
                let i = who(&vals)?;
                if vals != [$(i as u32 * 100 + $n),*] || seen.contains(&i) {
                    err!("yields {vals:?}");
                }
                seen.push(i);
            }
            if seen.len() != want {
                err!("yields {} entities instead of {want}", seen.len());
            }
            if dense {
                if !q.iter().is_dense() {
                    err!("is not dense");
                }
                let Some(($($v,)*)) = q.slice() else { err!("cannot be sliced") };
                $(if $v.len() != want { err!("has a slice of {} instead of {want} components", $v.len()); })*
                for k in 0..want {
                    let vals = [$($v[k].0),*];
                    if who(&vals)? != seen[k] || vals != [$(seen[k] as u32 * 100 + $n),*] {
                        err!("has slices with {vals:?} at position {k}");
                    }
                }
            }
            Ok(())
        }
        ($mask, check as SubCheck)
    }};
}

/// All sets of at least two of five components.
const SUBS: &[(u32, SubCheck)] = &[
    sub!(3; 0 v0 1 v1),
    sub!(5; 0 v0 2 v2),
    sub!(6; 1 v1 2 v2),
    sub!(7; 0 v0 1 v1 2 v2),
    sub!(9; 0 v0 3 v3),
    sub!(10; 1 v1 3 v3),
    sub!(11; 0 v0 1 v1 3 v3),
    sub!(12; 2 v2 3 v3),
    sub!(13; 0 v0 2 v2 3 v3),
    sub!(14; 1 v1 2 v2 3 v3),
    sub!(15; 0 v0 1 v1 2 v2 3 v3),
    sub!(17; 0 v0 4 v4),
    sub!(18; 1 v1 4 v4),
    sub!(19; 0 v0 1 v1 4 v4),
    sub!(20; 2 v2 4 v4),
    sub!(21; 0 v0 2 v2 4 v4),
    sub!(22; 1 v1 2 v2 4 v4),
    sub!(23; 0 v0 1 v1 2 v2 4 v4),
    sub!(24; 3 v3 4 v4),
    sub!(25; 0 v0 3 v3 4 v4),
    sub!(26; 1 v1 3 v3 4 v4),
    sub!(27; 0 v0 1 v1 3 v3 4 v4),
    sub!(28; 2 v2 3 v3 4 v4),
    sub!(29; 0 v0 2 v2 3 v3 4 v4),
    sub!(30; 1 v1 2 v2 3 v3 4 v4),
    sub!(31; 0 v0 1 v1 2 v2 3 v3 4 v4),
];

/// All prefixes of sixteen components.
macro_rules! prefix {
    ($k:literal: $($n:literal $v:ident)*) => {{
        fn check(w: &World, rows: &Rows, dense: bool) -> Result<(), String> {
            let (_, c) = sub!((1u32 << $k) - 1; $($n $v)*);
            c(w, rows, dense)
        }
        check as SubCheck
    }};
}

const PREFIX: &[SubCheck] = &[
    prefix!(2: 0 v0 1 v1),
    prefix!(3: 0 v0 1 v1 2 v2),
    prefix!(4: 0 v0 1 v1 2 v2 3 v3),
    prefix!(5: 0 v0 1 v1 2 v2 3 v3 4 v4),
    prefix!(6: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5),
    prefix!(7: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6),
    prefix!(8: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7),
    prefix!(9: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8),
    prefix!(10: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9),
    prefix!(11: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9 10 v10),
    prefix!(12: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9 10 v10 11 v11),
    prefix!(13: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9 10 v10 11 v11 12 v12),
    prefix!(14: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9 10 v10 11 v11 12 v12 13 v13),
    prefix!(15: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9 10 v10 11 v11 12 v12 13 v13 14 v14),
    prefix!(16: 0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 v9 10 v10 11 v11 12 v12 13 v13 14 v14 15 v15),
];

type PairCheck = fn(&World, &[Entity]) -> Result<(), String>;

/// Every entity but each third one has the pair; the others have one of the two.
macro_rules! pair {
    ($a:literal, $b:literal) => {
        {
            fn check(w: &World, es: &[Entity]) -> Result<(), String> {
                let want: Vec<Entity> = es.iter().enumerate().filter(|x| x.0 % 3 != $a / 2 % 3).map(|x| *x.1).collect();
                let mut q = w.query_all::<(Entity, &T<$a>, &T<$b>)>();
                if !q.iter().is_dense() {
                    err!("is not dense");
                }
                let Some((ents, a, b)) = q.slice() else { err!("cannot be sliced") };
                if ents.len() != want.len() || want.iter().any(|e| !ents.contains(e)) || a.len() != ents.len() || b.len() != ents.len() {
                    err!("contains {ents:?} instead of {want:?}");
                }
                for (k, e) in ents.iter().enumerate() {
                    let i = es.iter().position(|o| o == e).unwrap() as u32;
                    if a[k].0 != i || b[k].0 != i {
                        err!("position {k} has the values of another entity");
                    }
                }
                Ok(())
            }
            fn fill(w: &mut World, es: &[Entity]) {
                for (i, e) in es.iter().enumerate() {
                    w.insert(*e, (T::<$b>(i as u32),));
                    if i % 3 != $a / 2 % 3 {
                        w.insert(*e, (T::<$a>(i as u32),));
                    }
                }
            }
            (check as PairCheck, fill as fn(&mut World, &[Entity]))
        }
    };
}

const PAIRS: &[(PairCheck, fn(&mut World, &[Entity]))] = &[
    pair!(0, 1), pair!(2, 3), pair!(4, 5), pair!(6, 7), pair!(8, 9),
    pair!(10, 11), pair!(12, 13), pair!(14, 15), pair!(16, 17), pair!(18, 19),
    pair!(20, 21), pair!(22, 23), pair!(24, 25), pair!(26, 27), pair!(28, 29),
    pair!(30, 31), pair!(32, 33), pair!(34, 35), pair!(36, 37), pair!(38, 39),
    pair!(40, 41), pair!(42, 43), pair!(44, 45), pair!(46, 47), pair!(48, 49),
    pair!(50, 51), pair!(52, 53), pair!(54, 55), pair!(56, 57), pair!(58, 59),
    pair!(60, 61), pair!(62, 63), pair!(64, 65), pair!(66, 67), pair!(68, 69),
    pair!(70, 71), pair!(72, 73), pair!(74, 75), pair!(76, 77), pair!(78, 79),
    pair!(80, 81), pair!(82, 83), pair!(84, 85), pair!(86, 87), pair!(88, 89),
    pair!(90, 91), pair!(92, 93), pair!(94, 95), pair!(96, 97), pair!(98, 99),
    pair!(100, 101), pair!(102, 103), pair!(104, 105), pair!(106, 107), pair!(108, 109),
    pair!(110, 111), pair!(112, 113), pair!(114, 115), pair!(116, 117), pair!(118, 119),
    pair!(120, 121), pair!(122, 123), pair!(124, 125), pair!(126, 127), pair!(128, 129),
    pair!(130, 131), pair!(132, 133), pair!(134, 135),
];

fn group(mask: u32, variant: u8) -> Vec<ComponentData> {
    let mut v: Vec<ComponentData> = (0..32).filter(|i| mask >> i & 1 == 1).map(|i| DATA[i]).collect();
    match variant {
        0 => {}
        1 => v.reverse(),
        _ => {
            // Repeated components.
            v.push(v[0]);
            v.insert(0, v[1]);
            v.rotate_left(1);
        }
    }
    v
}

/// Whether a group may join the ones accepted before.
fn compatible(accepted: &[u32], g: u32) -> bool {
    if accepted.contains(&g) {
        return true;
    }
    let mut all = accepted.to_vec();
    all.push(g);
    all.iter().all(|&a| {
        all.iter().all(|&b| {
            let nested = a & b == 0 || a & b == a || a & b == b;
            // No group contains two disjoint ones.
            let clash = a & b == 0 && all.iter().any(|&c| c & (a | b) == (a | b));
            nested && !clash
        })
    })
}

fn insert_masked(w: &mut World, e: Entity, i: u32, m: u32) {
    macro_rules! ins {
        ($($n:literal)*) => { $(if m >> $n & 1 == 1 { w.insert(e, (T::<$n>(i * 100 + $n),)); })* };
    }
    ins!(4 2 0 1 3 15 5 14 6 13 7 12 8 11 9 10);
}

fn delete_masked(w: &mut World, e: Entity, m: u32) {
    macro_rules! del {
        ($($n:literal)*) => { $(if m >> $n & 1 == 1 { w.delete::<(T<$n>,)>(e); })* };
    }
    del!(1 0 4 3 2 5 6 7 8 9 10 11 12 13 14 15);
}

fn name(mask: u32) -> String {
    let v: Vec<String> = (0..32).filter(|i| mask >> i & 1 == 1).map(|i| i.to_string()).collect();
    format!("{{{}}}", v.join(" "))
}

fn check_small(w: &mut World, accepted: &[u32], rows: &mut Vec<(Entity, u32)>) -> Result<(), String> {
    for &(m, c) in SUBS {
        c(w, rows, accepted.contains(&m)).map_err(|e| format!("with the groups {:?}, the query {} {e}", names(accepted), name(m)))?;
    }
    Ok(())
}

fn names(gs: &[u32]) -> Vec<String> {
    gs.iter().map(|g| name(*g)).collect()
}

/// Adds groups one by one; in `late` the world is filled before it gets the layout.
fn run_sequence(seq: &[(u32, u8)], late: bool) -> Result<(), String> {
    let mut layout = GroupLayout::default();
    let mut accepted: Vec<u32> = Vec::new();
    for (i, &(g, variant)) in seq.iter().enumerate() {
        let ok = catch_unwind(AssertUnwindSafe(|| layout.add_group_dyn(&group(g, variant)))).is_ok();
        let want = compatible(&accepted, g);
        if ok != want {
            err!("group {} (number {}) after {:?} was {}", name(g), i + 1, names(&accepted), if ok { "accepted" } else { "refused" });
        }
        if ok && !accepted.contains(&g) {
            accepted.push(g);
        }
    }
    guarded(|| {
        let mut b = World::builder();
        for d in &DATA[..5] {
            b.register_dyn(*d);
        }
        if !late {
            b.set_layout(layout.clone());
        }
        let mut w = b.build();
        let mut rows: Vec<(Entity, u32)> = Vec::new();
        for i in 0..32u32 {
            // All sets of components, in an order that mixes them.
            let m = i * 13 % 32;
            let e = w.create(());
            insert_masked(&mut w, e, i, m);
            rows.push((e, m));
        }
        if late {
            w.set_layout(&layout);
        }
        check_small(&mut w, &accepted, &mut rows)?;
        // Every entity changes.
        for i in 0..rows.len() {
            let (e, m) = rows[i];
            let del = (i as u32 * 11 + 3) % 32;
            let new = (i as u32 * 7 + 5) % 32;
            delete_masked(&mut w, e, del);
            insert_masked(&mut w, e, i as u32, new);
            rows[i].1 = m & !del | new;
            if i % 5 == 4 {
                w.destroy(e);
                rows[i].1 = 0;
            }
        }
        check_small(&mut w, &accepted, &mut rows)
    })
}

// ---------------------------------------------------------------------------------------------
// Limits.

/// A chain of groups of the given arities (prefixes of the sixteen components), added in this order.
fn run_chain(arities: &[usize]) -> Result<(), String> {
    let mut layout = GroupLayout::default();
    let mut accepted = Vec::new();
    for &k in arities {
        let mut g = DATA[..k].to_vec();
        g.rotate_left(k / 3);
        let ok = catch_unwind(AssertUnwindSafe(|| layout.add_group_dyn(&g))).is_ok();
        if ok != (k <= 16) {
            err!("group of {k} components was {}", if ok { "accepted" } else { "refused" });
        }
        if ok {
            accepted.push(k);
        }
    }
    guarded(|| {
        let mut b = World::builder();
        b.set_layout(layout.clone());
        for d in &DATA[..16] {
            b.register_dyn(*d);
        }
        let mut w = b.build();
        let mut rows = Vec::new();
        for i in 0..40u32 {
            // Entities with every prefix, and ones with holes.
            let k = i * 7 % 20;
            let mut m = if k >= 16 { 0xffff } else { (1u32 << k) - 1 };
            if i % 4 == 3 {
                m &= !(1 << (i * 5 % 16));
            }
            let e = w.create(());
            insert_masked(&mut w, e, i, m);
            rows.push((e, m));
        }
        let check = |w: &World, rows: &Rows| {
            for k in 2..=16 {
                PREFIX[k - 2](w, rows, accepted.contains(&k)).map_err(|e| format!("with groups of the first {arities:?} components, the query of the first {k} {e}"))?;
            }
            Ok(())
        };
        check(&w, &rows)?;
        for i in 0..rows.len() {
            let (e, m) = rows[i];
            let del = 1 << (i * 3 % 16);
            let new = 0b11 << (i * 5 % 15);
            delete_masked(&mut w, e, del);
            insert_masked(&mut w, e, i as u32, new);
            rows[i].1 = m & !del | new;
        }
        check(&w, &rows)
    })
}

/// `n` pairs, added in an order, possibly each within a larger group.
fn run_pairs(n: usize, stride: usize) -> Result<(), String> {
    let mut layout = GroupLayout::default();
    for i in 0..n {
        let p = i * stride % n;
        let g = [DATA[2 * p + 1], DATA[2 * p]];
        let ok = catch_unwind(AssertUnwindSafe(|| layout.add_group_dyn(&g))).is_ok();
        if ok != (i < 64) {
            err!("group number {} was {}", i + 1, if ok { "accepted" } else { "refused" });
        }
        // A group that is already there is not another group.
        let again = catch_unwind(AssertUnwindSafe(|| layout.add_group_dyn(&[DATA[0], DATA[1]]))).is_ok();
        if i * stride % n == 0 && !again && i < 64 {
            err!("adding a group again was refused");
        }
        if p != 0 && i == 0 {
            // (0, 1) is in the layout from now on; it was counted above as an additional group.
            layout = GroupLayout::default();
            layout.add_group_dyn(&g);
        } else if p != 0 && i < 64 {
            let had: Vec<usize> = (0..=i).map(|j| j * stride % n).collect();
            if !had.contains(&0) {
                let mut l = GroupLayout::default();
                for q in had {
                    l.add_group_dyn(&[DATA[2 * q + 1], DATA[2 * q]]);
                }
                layout = l;
            }
        }
    }
    let used = n.min(64);
    guarded(|| {
        let mut w = World::new(&layout);
        let es: Vec<Entity> = (0..7).map(|_| w.create(())).collect();
        let in_layout: Vec<usize> = (0..used).map(|i| i * stride % n).collect();
        for &p in &in_layout {
            (PAIRS[p].1)(&mut w, &es);
        }
        for &p in &in_layout {
            (PAIRS[p].0)(&w, &es).map_err(|m| format!("with {n} pairs of components grouped, the query of pair {p} {m}"))?;
        }
        Ok(())
    })
}

/// Four chains of 15 groups and further pairs: nested groups count, too.
fn run_nested_limit(order: usize) -> Result<(), String> {
    let mut layout = GroupLayout::default();
    let mut groups: Vec<Vec<ComponentData>> = Vec::new();
    for f in 0..4 {
        for k in 2..=16 {
            groups.push(DATA[f * 16..f * 16 + k].to_vec());
        }
    }
    for p in 32..38 {
        groups.push(vec![DATA[2 * p], DATA[2 * p + 1]]);
    }
    match order {
        0 => {}
        1 => groups.reverse(),
        o => groups = (0..groups.len()).map(|i| groups[i * o % groups.len()].clone()).collect(),
    }
    for (i, g) in groups.iter().enumerate() {
        let ok = catch_unwind(AssertUnwindSafe(|| layout.add_group_dyn(g))).is_ok();
        if ok != (i < 64) {
            err!("group number {} was {}", i + 1, if ok { "accepted" } else { "refused" });
        }
    }
    guarded(|| {
        let mut w = World::new(&layout);
        let es: Vec<Entity> = (0..7).map(|_| w.create(())).collect();
        for p in 32..38 {
            if groups[..64].iter().any(|g| g.len() == 2 && g.contains(&DATA[2 * p])) {
                (PAIRS[p].1)(&mut w, &es);
                (PAIRS[p].0)(&w, &es).map_err(|m| format!("the query of pair {p} {m}"))?;
            }
        }
        let mut rows = Vec::new();
        for (i, e) in es.iter().enumerate() {
            let m = if i < 4 { 0xffff } else { (1u32 << (i * 2)) - 1 };
            for d in 0..16 {
                if m >> d & 1 == 1 && !w.is_registered_dyn(DATA[d].type_id()) {
                    w.register_dyn(DATA[d]);
                }
            }
            insert_masked(&mut w, *e, i as u32, m);
            rows.push((*e, m));
        }
        for k in 2..=16 {
            let is = groups[..64].iter().any(|g| g.len() == k && (0..k).all(|i| g.contains(&DATA[i])));
            PREFIX[k - 2](&w, &rows, is).map_err(|e| format!("the query of the first {k} components {e}"))?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------

fn encode(seq: &[(u32, u8)], late: bool) -> String {
    let s: Vec<String> = seq.iter().map(|(g, v)| format!("{g}.{v}")).collect();
    format!("q:{}:{}", u8::from(late), s.join(","))
}

struct C07;

/// Number of sequences of `len` digits.
fn sequences(ctx: &Ctx, alphabet: &[(u32, u8)], len: usize, late: bool, note: &str) {
    let n = alphabet.len();
    let total = n.pow(len as u32);
    let accepted_all = AtomicU64::new(0);
    let chunk = 64;
    ctx.parallel(total.div_ceil(chunk), |job| {
        for code in job * chunk..((job + 1) * chunk).min(total) {
            let mut c = code;
            let seq: Vec<(u32, u8)> = (0..len)
                .map(|_| {
                    let x = alphabet[c % n];
                    c /= n;
                    x
                })
                .collect();
            let case = encode(&seq, late);
            ctx.begin(&case);
            if let Err(m) = run_sequence(&seq, late) {
                ctx.violation(&case, &m);
                return;
            }
            let mut acc: Vec<u32> = Vec::new();
            if seq.iter().all(|(g, _)| {
                let ok = compatible(&acc, *g);
                acc.push(*g);
                ok
            }) {
                accepted_all.fetch_add(1, Ordering::Relaxed);
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("states", total as u64);
    ctx.add("transitions", (total * len) as u64);
    ctx.add("traces_validated_against_impl", total as u64);
    ctx.add("sequences_without_refusal", accepted_all.into_inner());
    ctx.note("sequences", &format!("{note}: all {total} sequences of {len} of {n} groups"));
    ctx.sample(encode(&[alphabet[n / 2], alphabet[n - 1], alphabet[0]], late));
}

fn limits(ctx: &Ctx) {
    let mut jobs: Vec<(String, Box<dyn Fn() -> Result<(), String> + Sync + Send>)> = Vec::new();
    let mut chain = |v: Vec<usize>| {
        let case = format!("c:{}", v.iter().map(ToString::to_string).collect::<Vec<_>>().join(","));
        jobs.push((case, Box::new(move || run_chain(&v))));
    };
    // Every sequence of up to three arities, one of them possibly too large.
    for a in 2..=17 {
        chain(vec![a]);
        for b in 2..=17 {
            chain(vec![a, b]);
            for c in 2..=17 {
                chain(vec![a, b, c]);
            }
        }
    }
    // All fifteen arities, in ascending, descending and strided order, and with each one added last.
    chain((2..=16).collect());
    chain((2..=16).rev().collect());
    for s in [2, 4, 7, 8, 11, 13, 14] {
        chain((0..15).map(|i| 2 + i * s % 15).collect());
    }
    for last in 2..=16 {
        chain((2..=16).filter(|k| *k != last).chain([last]).collect());
        chain((2..=16).rev().filter(|k| *k != last).chain([last]).collect());
    }
    for n in 1..=66 {
        for s in [1, 5, 7] {
            if (n % s != 0 || s == 1) && (1..n).all(|i| i * s % n != 0) {
                jobs.push((format!("p:{n}:{s}"), Box::new(move || run_pairs(n, s))));
            }
        }
    }
    for o in [0, 1, 5, 7, 13, 23, 29, 31] {
        jobs.push((format!("n:{o}"), Box::new(move || run_nested_limit(o))));
    }
    ctx.parallel(jobs.len(), |i| {
        ctx.begin(&jobs[i].0);
        if let Err(m) = jobs[i].1() {
            ctx.violation(&jobs[i].0, &m);
        }
    });
    ctx.add("states", jobs.len() as u64);
    ctx.add("traces_validated_against_impl", jobs.len() as u64);
    ctx.note("limits", "chains of groups of 2 to 17 components in many orders; 1 to 66 disjoint groups; 64 of 66 groups in nested families");
    ctx.sample("c:2,3,4,5,6,7,8,9,10,11,12,13,14,15,16".into());
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        let thorough = ctx.tier == Tier::Thorough;
        let plain: Vec<(u32, u8)> = SUBS.iter().map(|s| (s.0, 0)).collect();
        let all: Vec<(u32, u8)> = SUBS.iter().flat_map(|s| (0..3).map(|v| (s.0, v))).collect();
        let four: Vec<(u32, u8)> = plain.iter().copied().filter(|s| s.0 < 16).collect();
        limits(ctx);
        sequences(ctx, &plain, 1, true, "five components, set on a populated world");
        sequences(ctx, &plain, 2, true, "five components, set on a populated world");
        sequences(ctx, &plain, 3, true, "five components, set on a populated world");
        sequences(ctx, &all, 2, false, "five components, written in three ways");
        sequences(ctx, &plain, 3, false, "five components");
        sequences(ctx, &four, 4, true, "four components, set on a populated world");
        sequences(ctx, &plain, 4, false, "five components");
        sequences(ctx, &four, 5, false, "four components");
        sequences(ctx, &all, 3, false, "five components, written in three ways");
        if thorough {
            sequences(ctx, &four, 6, false, "four components");
            sequences(ctx, &plain, 5, false, "five components");
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let (k, rest) = case.split_once(':').ok_or("bad case")?;
        let nums = |s: &str| -> Vec<usize> { s.split([',', ':']).filter_map(|x| x.parse().ok()).collect() };
        let r = catch_unwind(AssertUnwindSafe(|| match k {
            "c" => run_chain(&nums(rest)),
            "p" => run_pairs(nums(rest)[0], nums(rest)[1]),
            "n" => run_nested_limit(nums(rest)[0]),
            _ => {
                let (late, seq) = rest.split_once(':').unwrap();
                let seq: Vec<(u32, u8)> = seq
                    .split(',')
                    .map(|x| {
                        let (g, v) = x.split_once('.').unwrap();
                        (g.parse().unwrap(), v.parse().unwrap())
                    })
                    .collect();
                run_sequence(&seq, late == "1")
            }
        }));
        r.unwrap_or_else(|_| Err(last_panic()))
    }
    fn explain(&self, case: &str) -> String {
        let Some(rest) = case.strip_prefix("q:") else { return case.to_string() };
        let (late, seq) = rest.split_once(':').unwrap_or(("0", rest));
        let gs: Vec<String> = seq
            .split(',')
            .filter_map(|x| x.split_once('.'))
            .map(|(g, v)| {
                let how = match v {
                    "0" => "",
                    "1" => " written in reverse",
                    _ => " written with repetitions",
                };
                format!("{}{how}", name(g.parse().unwrap_or(0)))
            })
            .collect();
        format!(
            "groups over the component types 0 to 4, added in this order{}: {}",
            if late == "1" { " and set on a populated world" } else { "" },
            gs.join(", ")
        )
    }
}

fn main() {
    engine::runner::main(&C07)
}
