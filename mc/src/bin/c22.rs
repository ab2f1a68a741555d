//! The same history gives the same world, whatever else happens in the process.

use engine::runner::{Check, Ctx, Tier};
use engine::{alloc, ledger};
use mc::comps::*;
use mc::exec::{begin_run, Exec};
use mc::lockstep::applicable;
use mc::op::{decode, encode, Op};
use mc::system::*;
use mc::{err, for_registered};
use sparsey::query::Query;
use sparsey::Entity;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

/// Everything that can be seen of a world, in order, without the values, which every run compares with
/// the model.
#[derive(PartialEq, Clone, Debug, Default)]
struct Shown {
    lists: Vec<(&'static str, Vec<Entity>)>,
    dense: Vec<bool>,
    registered: Vec<bool>,
    issued: Vec<Entity>,
    /// Ordinals of the values dropped by each step.
    drops: Vec<Vec<u32>>,
}

/// A world and what it did.
struct Run {
    x: Exec,
    ordinals: HashMap<u32, u32>,
    drops: Vec<Vec<u32>>,
}

macro_rules! queries {
    ($x:ident, $out:ident; $($need:literal $G:ty, $I:ty, $E:ty;)*) => {$(
        if $x.m.registered & $need == $need {
            list::<$G, $I, $E>($x, stringify!($G, $I, $E), &mut $out);
        }
    )*};
}

trait First {
    fn first(self) -> Entity;
}

macro_rules! first {
    ($($T:ident)*) => {
        impl<$($T),*> First for (Entity, $($T,)*) {
            fn first(self) -> Entity {
                self.0
            }
        }
    };
}
first!();
first!(S);
first!(S T);
first!(S T U);

fn list<'w, G: Query, I: Query, E: Query>(x: &'w Exec, name: &'static str, out: &mut Shown)
where
    for<'a> G::Item<'a>: First,
{
    let mut q = x.w.query_all::<G>().include::<I>().exclude::<E>();
    let it = q.iter();
    out.dense.push(it.is_dense());
    out.lists.push((name, it.map(First::first).collect()));
}

impl Run {
    fn new(cfg: (u8, u8)) -> Self {
        Self { x: Exec::new(cfg.0, cfg.1), ordinals: HashMap::new(), drops: Vec::new() }
    }

    fn note(&mut self, from: u32) -> Result<(), String> {
        for t in from..ledger::count() {
            let n = self.ordinals.len() as u32;
            self.ordinals.insert(t, n);
        }
        self.dropped()?;
        Ok(())
    }

    /// Takes down which values were dropped, by step (the order within a step is nobody's business).
    fn dropped(&mut self) -> Result<(), String> {
        let mut now = Vec::new();
        for t in ledger::take_log() {
            match self.ordinals.get(&t) {
                _ if t == u32::MAX => now.push(t),
                Some(n) => now.push(*n),
                None => err!("a value of another world was dropped"),
            }
        }
        now.sort_unstable();
        self.drops.push(now);
        Ok(())
    }

    fn apply(&mut self, op: Op) -> Result<bool, String> {
        if !applicable(&self.x, op) {
            return Ok(false);
        }
        let from = ledger::count();
        ledger::take_log();
        self.x.apply(op)?;
        self.note(from)?;
        Ok(true)
    }

    fn all(&mut self, ops: &[Op]) -> Result<bool, String> {
        for op in ops {
            if !self.apply(*op).map_err(|m| format!("{op:?}: {m}"))? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    /// Shows the world, and drops it.
    fn end(mut self) -> Result<Shown, String> {
        let mut out = Shown::default();
        let x = &self.x;
        mc::observe::basic(x)?;
        out.lists.push(("entities", x.w.entities().to_vec()));
        for_registered!(x.m.registered, T => out.lists.push((<T as Comp>::NAME, x.w.borrow::<T>().entities().to_vec())));
        queries! {x, out;
            1 (Entity, &A), (), ();
            3 (Entity, &A, &B), (), ();
            3 (Entity, &B), (), &A;
            3 (Entity,), (&A, &B), ();
            3 (Entity, &A, Option<&B>), (), ();
            7 (Entity, &A, &B, &C), (), ();
            7 (Entity, &A, &B), (), &C;
            7 (Entity, &B), &C, &A;
            6 (Entity, &C, &B), (), ();
            8 (Entity, &D), (), ();
            12 (Entity, &C, &D), (), ();
            15 (Entity, &A, &B), (&C, &D), ();
        }
        out.registered = vec![
            x.w.is_registered::<A>(),
            x.w.is_registered::<B>(),
            x.w.is_registered::<C>(),
            x.w.is_registered::<D>(),
        ];
        out.issued = x.m.issued.to_vec();
        let w = std::mem::take(&mut self.x.w);
        ledger::take_log();
        alloc::tagged(|| drop(w));
        self.dropped()?;
        out.drops = self.drops;
        Ok(out)
    }
}

fn differ(a: &Shown, b: &Shown) -> Option<String> {
    if a == b {
        return None;
    }
    for (x, y) in a.lists.iter().zip(&b.lists) {
        if x != y {
            return Some(format!("{}: {:?}, expected {:?}", x.0, x.1, y.1));
        }
    }
    if a.issued != b.issued {
        return Some(format!("issued {:?}, expected {:?}", a.issued, b.issued));
    }
    if a.drops != b.drops {
        return Some(format!("dropped the values {:?}, expected {:?}", a.drops, b.drops));
    }
    Some(format!("{a:?}, expected {b:?}"))
}

fn wrap_up() -> Result<(), String> {
    Exec::side_errors()?;
    Exec::check_balance()
}

// ---------------------------------------------------------------------------------------------
// Every history twice.

struct Twice(UpToRenaming);

impl Observer for Twice {
    fn transition(&self, _: &mut Exec, _: &[Op]) -> Result<(), String> {
        Ok(())
    }
    fn new_state(&self, _: &mut Exec, _: &[Op]) -> Result<(), String> {
        Ok(())
    }
    fn after(&self, cfg: &Cfg, history: &[Op]) -> Result<(), String> {
        let start = (cfg.layout, cfg.registered);
        begin_run();
        let mut a = Run::new(start);
        a.all(history)?;
        let threaded = self.0.is_new(&a.x);
        let alone = a.end()?;
        wrap_up()?;
        // Again, beside another world with other contents and another layout.
        begin_run();
        let mut other = Run::new((6, 15));
        other.all(&[Op::Extend(15, 3), Op::Create(3), Op::Destroy(1)])?;
        let mut b = Run::new(start);
        b.all(history)?;
        let mut c = Run::new(start);
        c.all(history)?;
        if let Some(d) = differ(&b.end()?, &alone) {
            err!("the same history gives another world: {d}");
        }
        other.all(&[Op::Clear])?;
        other.end()?;
        if let Some(d) = differ(&c.end()?, &alone) {
            err!("the same history gives another world, after another world was dropped: {d}");
        }
        wrap_up()?;
        // And on another thread.
        if threaded {
            let r = std::thread::scope(|s| {
                s.spawn(|| {
                    guarded(|| {
                        begin_run();
                        let mut a = Run::new(start);
                        a.all(history)?;
                        let r = a.end();
                        wrap_up()?;
                        r
                    })
                })
                .join()
            });
            let shown = r.map_err(|_| "a thread died")??;
            if let Some(d) = differ(&shown, &alone) {
                err!("the same history gives another world on a new thread: {d}");
            }
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let layouts: &[u8] = if thorough { &[0, 1, 3, 10] } else { &[3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three components",
            layout,
            registered: 0b0111,
            create: vec![0, 1, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            max_live: if thorough { 3 } else { 2 },
            max_index: if thorough { 3 } else { 2 },
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "all operations",
        layout: 0,
        registered: 0b0001,
        create: vec![0, 1, 7],
        extend: vec![(7, 2), (15, 3)],
        insert: vec![2, 12],
        remove: vec![1],
        delete: vec![15],
        atomic: true,
        clear: true,
        reset: true,
        layouts: vec![0, 3, 6, 15],
        register: vec![1, 3],
        max_live: 4,
        max_index: 4,
        depth: if thorough { 6 } else { 5 },
        ..Cfg::default()
    });
    for n in [11, 37, 130, 400] {
        v.push(
            Cfg {
                layout: 6,
                registered: 0b1111,
                create: vec![15],
                insert: vec![4, 15],
                remove: vec![1],
                clear: true,
                layouts: vec![0, 15],
                depth: if thorough { 3 } else { 2 },
                ..Cfg::default()
            }
            .large(n),
        );
    }
    v
}

// ---------------------------------------------------------------------------------------------
// Two worlds in turns.

const OPS: &[Op] = &[
    Op::Create(0),
    Op::Create(7),
    Op::Extend(3, 2),
    Op::Extend(12, 1),
    Op::Atomic,
    Op::Maintain,
    Op::Insert(0, 6),
    Op::Remove(0, 1),
    Op::Delete(0, 2),
    Op::Destroy(0),
    Op::Clear,
    Op::Reset,
    Op::Layout(3),
    Op::Layout(4),
    Op::Register(3),
];

/// Layout and registered components of the two worlds.
const STARTS: &[[(u8, u8); 2]] =
    &[[(0, 0b0111), (3, 0b0111)], [(3, 0b0111), (6, 0b1111)], [(4, 0b1111), (0, 0b1100)], [(3, 0b0111), (3, 0b0111)]];

/// All applicable histories up to a length, with what they show alone.
fn histories(start: (u8, u8), len: usize) -> Result<Vec<(Vec<Op>, Shown)>, String> {
    let mut out = Vec::new();
    let mut level: Vec<Vec<Op>> = vec![Vec::new()];
    for _ in 0..=len {
        let mut next = Vec::new();
        for h in level {
            begin_run();
            let mut r = Run::new(start);
            let ok = guarded(|| r.all(&h))?;
            let shown = r.end()?;
            if ok {
                for op in OPS {
                    let mut h = h.clone();
                    h.push(*op);
                    next.push(h);
                }
                out.push((h, shown));
            }
        }
        level = next;
    }
    Ok(out)
}

/// `turns`: bit i says that the second world takes step i.
fn turns(starts: [(u8, u8); 2], a: &[Op], b: &[Op], turns: u32, expect: Option<[&Shown; 2]>) -> Result<(), String> {
    guarded(|| {
        let mut alone: Vec<Shown> = Vec::new();
        if expect.is_none() {
            for (s, h) in starts.iter().zip([a, b]) {
                begin_run();
                let mut r = Run::new(*s);
                r.all(h)?;
                alone.push(r.end()?);
            }
        }
        let expect = expect.unwrap_or_else(|| [&alone[0], &alone[1]]);
        begin_run();
        let mut w = [Run::new(starts[0]), Run::new(starts[1])];
        let mut at = [0, 0];
        for i in 0..a.len() + b.len() {
            let k = (turns >> i & 1) as usize;
            let op = [a, b][k][at[k]];
            if !w[k].apply(op).map_err(|m| format!("world {}: {op:?}: {m}", k + 1))? {
                err!("world {}: {op:?} does not apply beside another world", k + 1);
            }
            at[k] += 1;
        }
        let [x, y] = w;
        let first = turns.count_ones() % 2 == 0;
        let (sx, sy) = if first {
            let sx = x.end()?;
            (sx, y.end()?)
        } else {
            let sy = y.end()?;
            (x.end()?, sy)
        };
        for (k, s) in [sx, sy].iter().enumerate() {
            if let Some(d) = differ(s, expect[k]) {
                err!("world {} is not what it is alone: {d}", k + 1);
            }
        }
        wrap_up()
    })
}

fn pairs(ctx: &Ctx, len: [usize; 2]) {
    for (s, starts) in STARTS.iter().enumerate() {
        ctx.begin(&format!("t:{s}:::0"));
        let r = histories(starts[0], len[0]).and_then(|a| Ok((a, histories(starts[1], len[1])?)));
        let (a, b) = match r {
            Ok(x) => x,
            Err(m) => {
                ctx.violation(&format!("t:{s}:::0"), &m);
                return;
            }
        };
        ctx.end();
        let runs = AtomicU64::new(0);
        ctx.parallel(a.len(), |i| {
            let (ha, sa) = &a[i];
            for (hb, sb) in &b {
                let n = ha.len() + hb.len();
                for t in 0..1u32 << n {
                    if t.count_ones() as usize != hb.len() {
                        continue;
                    }
                    let case = format!("t:{s}:{}:{}:{t}", encode(ha), encode(hb));
                    ctx.begin(&case);
                    if let Err(m) = turns(*starts, ha, hb, t, Some([sa, sb])) {
                        ctx.violation(&case, &m);
                        return;
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
        let runs = runs.into_inner();
        ctx.add("interleavings", runs);
        ctx.add("traces_validated_against_impl", runs);
        ctx.add("transitions", runs);
        ctx.note(
            "pairs_of_worlds",
            &format!(
                "layouts {} and {}: {} histories of up to {} operations with {} of up to {}, in every interleaving: {runs}",
                mc::exec::layout_name(starts[0].0 as usize),
                mc::exec::layout_name(starts[1].0 as usize),
                a.len(),
                len[0],
                b.len(),
                len[1]
            ),
        );
    }
}

struct C22(BfsCheck<Twice>);

impl Check for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        self.0.explore(ctx);
        if !ctx.stopped() {
            pairs(ctx, if ctx.tier == Tier::Quick { [3, 2] } else { [3, 3] });
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let Some(c) = case.strip_prefix("t:") else { return self.0.replay(case) };
        let f: Vec<&str> = c.split(':').collect();
        turns(STARTS[f[0].parse::<usize>().unwrap_or(0)], &decode(f[1]), &decode(f[2]), f[3].parse().unwrap_or(0), None)
    }
    fn explain(&self, case: &str) -> String {
        let Some(c) = case.strip_prefix("t:") else { return self.0.explain(case) };
        let f: Vec<&str> = c.split(':').collect();
        let (a, b) = (decode(f[1]), decode(f[2]));
        let t: u32 = f[3].parse().unwrap_or(0);
        let (mut at, mut s) = ([0, 0], String::new());
        for i in 0..a.len() + b.len() {
            let k = (t >> i & 1) as usize;
            s.push_str(&format!("  world {}: {:?}\n", k + 1, [&a, &b][k][at[k]]));
            at[k] += 1;
        }
        let starts = STARTS[f[0].parse::<usize>().unwrap_or(0)];
        format!(
            "two worlds with layouts {} and {}:\n{s}",
            mc::exec::layout_name(starts[0].0 as usize),
            mc::exec::layout_name(starts[1].0 as usize)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        self.0.assumptions()
    }
}

fn main() {
    engine::runner::main(&C22(BfsCheck { id: "C22", cfgs, obs: Twice(UpToRenaming::default()), assumptions: &[] }))
}
