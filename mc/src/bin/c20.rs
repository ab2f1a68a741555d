//! Order, equality and hashes of entities and versions.

use engine::runner::{last_panic, Check, Ctx, Tier};
use mc::err;
use mc::exec::entity;
use sparsey::entity::{Entity, Version};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn numbers(tier: Tier) -> Vec<u32> {
    let mut v = vec![0, 1, 2, 3, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX];
    if tier == Tier::Thorough {
        for i in 0..32 {
            for d in [u32::MAX, 0, 1] {
                v.push((1u32 << i).wrapping_add(d));
            }
        }
        v.sort_unstable();
        v.dedup();
    }
    v
}

fn entities(ns: &[u32]) -> Vec<Entity> {
    ns.iter().flat_map(|i| ns.iter().filter(|v| **v != 0).map(|v| entity(*i, *v))).collect()
}

/// Records what is hashed.
#[derive(Default)]
struct Bytes(Vec<u8>);

impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn hashes<T: Hash>(t: &T) -> (u64, Vec<u8>) {
    let (mut d, mut b) = (DefaultHasher::new(), Bytes::default());
    t.hash(&mut d);
    t.hash(&mut b);
    (d.finish(), b.0)
}

fn raw(e: Entity) -> (u32, u32) {
    (e.version.0.get(), e.index)
}

fn ordered<T: Ord + Copy + std::fmt::Debug + Hash>(a: T, b: T, want: Ordering) -> Result<(), String> {
    let c = a.cmp(&b);
    if c != want {
        err!("{a:?} compares {c:?} to {b:?}");
    }
    if (a == b) != (want == Ordering::Equal) || (a != b) != (want != Ordering::Equal) {
        err!("equality of {a:?} and {b:?} is {}, although they compare {want:?}", a == b);
    }
    if a.partial_cmp(&b) != Some(want) {
        err!("{a:?} compares partially {:?} to {b:?}, but totally {want:?}", a.partial_cmp(&b));
    }
    if (a < b, a <= b, a > b, a >= b) != (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()) {
        err!("the comparison operators on {a:?} and {b:?} disagree with {want:?}");
    }
    let (min, max) = (a.min(b), a.max(b));
    if (min == a) != want.is_le() || (min == b) != want.is_ge() || (max == a) != want.is_ge() || (max == b) != want.is_le() {
        err!("min and max of {a:?} and {b:?} are {min:?} and {max:?}");
    }
    if want == Ordering::Equal && hashes(&a) != hashes(&b) {
        err!("{a:?} and {b:?} are equal, but hash differently");
    }
    Ok(())
}

fn pair(a: Entity, b: Entity) -> Result<(), String> {
    ordered(a, b, raw(a).cmp(&raw(b)))?;
    ordered(a.version, b.version, raw(a).0.cmp(&raw(b).0))?;
    // A copy made by parts is equal.
    let c = Entity::new(a.index, Version(a.version.0));
    ordered(a, c, Ordering::Equal)?;
    if a.sparse() != a.index as usize {
        err!("sparse index of {a:?} is {}", a.sparse());
    }
    if Entity::with_index(a.index) != Entity::new(a.index, Version::FIRST) {
        err!("the first entity with index {} is {:?}", a.index, Entity::with_index(a.index));
    }
    Ok(())
}

fn triple(a: Entity, b: Entity, c: Entity) -> Result<(), String> {
    if a <= b && b <= c && !(a <= c) || a < b && b <= c && !(a < c) || a == b && b == c && a != c {
        err!("the order of {a:?}, {b:?} and {c:?} is not transitive");
    }
    let mut v = [a, b, c];
    v.sort();
    let mut w = [c, b, a];
    w.sort_unstable();
    let mut k = [raw(a), raw(b), raw(c)];
    k.sort_unstable();
    if v.map(raw) != k || w.map(raw) != k {
        err!("sorting {a:?}, {b:?} and {c:?} gives {v:?} and {w:?}");
    }
    Ok(())
}

fn sets(v: &[Entity]) -> Result<(), String> {
    let (mut t, mut h) = (BTreeSet::new(), HashSet::new());
    for e in v.iter().chain(v) {
        if t.insert(*e) != h.insert(*e) {
            err!("a tree set and a hash set disagree on {e:?}");
        }
    }
    let distinct: HashSet<(u32, u32)> = v.iter().map(|e| raw(*e)).collect();
    if t.len() != distinct.len() || h.len() != distinct.len() {
        err!("sets of {} distinct entities contain {} and {}", distinct.len(), t.len(), h.len());
    }
    for e in v {
        if !t.contains(e) || !h.contains(e) {
            err!("sets do not contain {e:?}");
        }
    }
    Ok(())
}

fn next(v: u32) -> Result<(), String> {
    let v = black_box(v);
    let Some(n) = NonZeroU32::new(v) else { return Ok(()) };
    let ver = Version(n);
    match ver.next() {
        None if v != u32::MAX => err!("there is no version after {v}"),
        Some(x) if v == u32::MAX => err!("the version after the last one is {x:?}"),
        Some(x) if !(x > ver && x.0.get() > v && x != ver) => err!("the version after {v} is {x:?}"),
        _ => {}
    }
    if ver < Version::FIRST || ver > Version::LAST || (ver == Version::FIRST) != (v == 1) || (ver == Version::LAST) != (v == u32::MAX) {
        err!("version {v} is outside of the range of versions, or wrongly equal to its ends");
    }
    let e = Entity::with_index(v);
    if e.index != v || e.sparse() != v as usize || e.version != Version::default() || e.version != Version::FIRST {
        err!("the first entity with index {v} is {e:?}");
    }
    Ok(())
}

struct C20;

impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn explore(&self, ctx: &Ctx) {
        let ns = numbers(ctx.tier);
        let es = entities(&ns);
        let small = entities(&numbers(Tier::Quick));
        ctx.begin("sets");
        if let Err(m) = sets(&es) {
            ctx.violation("sets", &m);
            return;
        }
        ctx.end();
        ctx.parallel(es.len(), |i| {
            let a = es[i];
            ctx.begin(&format!("pairs {} {}", a.index, a.version.0));
            for b in &es {
                if let Err(m) = pair(a, *b) {
                    ctx.violation(&format!("pair {} {} {} {}", a.index, a.version.0, b.index, b.version.0), &m);
                    return;
                }
            }
            ctx.add("pairs", es.len() as u64);
        });
        ctx.parallel(small.len(), |i| {
            let a = small[i];
            ctx.begin(&format!("triples {} {}", a.index, a.version.0));
            for b in &small {
                for c in &small {
                    if let Err(m) = triple(a, *b, *c) {
                        ctx.violation(
                            &format!("triple {} {} {} {} {} {}", a.index, a.version.0, b.index, b.version.0, c.index, c.version.0),
                            &m,
                        );
                        return;
                    }
                }
            }
            ctx.add("triples", (small.len() * small.len()) as u64);
        });
        // Every version there is.
        ctx.parallel(1 << 12, |i| {
            ctx.begin(&format!("versions {i}"));
            for v in (i as u32) << 20..=(i as u32) << 20 | 0xf_ffff {
                if let Err(m) = next(v) {
                    ctx.violation(&format!("version {v}"), &m);
                    return;
                }
            }
            ctx.add("versions", if i == 0 { 0xf_ffff } else { 0x10_0000 });
        });
        for k in ["pairs", "triples", "versions"] {
            let n = ctx.get(k);
            ctx.add("evaluations", n);
            ctx.add("distinct_nontrivial", n);
        }
        ctx.note("rule", "all pairs and triples of entities over boundary indexes and versions, and the successor of every version that exists; the cases of each kind are distinct");
        ctx.sample("pair 0 1 4294967295 1: equal only if both parts are, ordered by version, then index".into());
        ctx.sample("version 4294967295: has no successor".into());
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let (kind, rest) = case.split_once(' ').unwrap_or((case, ""));
        let n: Vec<u32> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
        let run = || match (kind, n.as_slice()) {
            ("pair", [a, b, c, d]) => pair(entity(*a, *b), entity(*c, *d)),
            ("triple", [a, b, c, d, e, f]) => triple(entity(*a, *b), entity(*c, *d), entity(*e, *f)),
            ("version", [v]) => next(*v),
            ("versions", [i]) => (i << 20..=i << 20 | 0xf_ffff).try_for_each(next),
            ("pairs", [a, b]) => entities(&numbers(Tier::Thorough)).iter().try_for_each(|x| pair(entity(*a, *b), *x)),
            ("triples", [a, b]) => {
                let v = entities(&numbers(Tier::Quick));
                v.iter().try_for_each(|x| v.iter().try_for_each(|y| triple(entity(*a, *b), *x, *y)))
            }
            _ => sets(&entities(&numbers(Tier::Thorough))),
        };
        catch_unwind(AssertUnwindSafe(run)).unwrap_or_else(|_| Err(last_panic()))
    }
}

fn main() {
    engine::runner::main(&C20)
}
