//! Registration of components: in every state of a world, and by every sequence of builder calls.

use engine::{alloc, ledger};
use engine::runner::{last_panic, Check, Ctx, Tier};
use mc::comps::*;
use mc::exec::{begin_run, component_data, group_data, layout, Exec, Model, LAYOUTS};
use mc::many::{all_kinds, Register};
use mc::op::Op;
use mc::system::*;
use mc::{err, for_mask, lockstep, observe};
use sparsey::component::GroupLayout;
use sparsey::world::WorldBuilder;
use sparsey::World;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Registers by type.
fn register(w: &mut World, c: u8) -> bool {
    alloc::tagged(|| match c {
        0 => w.register::<A>(),
        1 => w.register::<B>(),
        2 => w.register::<C>(),
        _ => w.register::<D>(),
    })
}

/// Registers component `c` in both ways, `dynamic` first or last.
fn again(x: &mut Exec, c: u8, dynamic: bool) -> Result<(), String> {
    for d in [dynamic, !dynamic] {
        let want = x.m.registered >> c & 1 == 0;
        let got = if d { alloc::tagged(|| x.w.register_dyn(component_data(c as usize))) } else { register(&mut x.w, c) };
        if got != want {
            err!("registering {}{} returned {got}", NAMES[c as usize], if d { " dynamically" } else { "" });
        }
        x.m.registered |= 1 << c;
        observe::registration(x)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// States of a world.

struct Obs {
    continuations: usize,
}

const THEN: &[Op] = &[Op::Create(15), Op::Insert(0, 9), Op::Layout(5), Op::Layout(0), Op::Destroy(0), Op::Clear, Op::Reset, Op::Layout(7)];

impl Obs {
    /// Registers a component, goes on with some operations and registers again.
    fn then(&self, cfg: &Cfg, h: &[Op], c: u8, cont: &mut Vec<Op>) -> Result<(), String> {
        begin_run();
        let mut x = Exec::new(cfg.layout, cfg.registered);
        for op in h {
            x.apply(*op)?;
        }
        again(&mut x, c, h.len() % 2 == 0)?;
        observe::basic(&x)?;
        for op in cont.iter() {
            if !lockstep::applicable(&x, *op) {
                return Ok(());
            }
            x.apply(*op)?;
        }
        let m = |m| format!("after registering {}, then {cont:?}: {m}", NAMES[c as usize]);
        observe::registration(&x).map_err(m)?;
        observe::basic(&x).map_err(m)?;
        grouped(&x.w, x.m.layout_groups(), x.m.registered).map_err(m)?;
        for c in 0..N as u8 {
            again(&mut x, c, c % 2 == 0)?;
        }
        observe::basic(&x).map_err(m)?;
        x.finish()?;
        Exec::check_balance()?;
        if cont.len() < self.continuations {
            for op in THEN {
                cont.push(*op);
                self.then(cfg, h, c, cont)?;
                cont.pop();
            }
        }
        Ok(())
    }
}

trait Groups {
    fn layout_groups(&self) -> &'static [u8];
}

impl Groups for Model {
    fn layout_groups(&self) -> &'static [u8] {
        LAYOUTS[self.layout as usize]
    }
}

impl Observer for Obs {
    fn transition(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        observe::registration(x)?;
        observe::basic(x)
    }
    fn new_state(&self, x: &mut Exec, h: &[Op]) -> Result<(), String> {
        observe::full(x)?;
        grouped(&x.w, x.m.layout_groups(), x.m.registered)?;
        for c in 0..N as u8 {
            let had = x.m.registered;
            again(x, c, h.len() % 2 == 0)?;
            if had != x.m.registered {
                observe::views(x, &x.m.tracked())?;
            }
        }
        observe::full(x)
    }
    fn after(&self, cfg: &Cfg, h: &[Op]) -> Result<(), String> {
        for c in 0..N as u8 {
            self.then(cfg, h, c, &mut Vec::new())?;
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = vec![
        Cfg {
            name: "registration and layouts",
            registered: 0,
            register: vec![0, 1, 2, 3],
            layouts: vec![0, 1, 4, 9],
            create: vec![0, 3],
            insert: vec![4, 8],
            remove: vec![1],
            clear: true,
            reset: true,
            max_live: 2,
            max_index: 2,
            max_version: 2,
            depth: if thorough { 10 } else { 8 },
            ..Cfg::default()
        },
        Cfg {
            name: "registration with data",
            layout: 1,
            registered: 0,
            register: vec![2, 3],
            create: vec![0, 1, 15],
            insert: vec![1, 2, 12],
            remove: vec![2, 4],
            atomic: true,
            clear: true,
            max_live: 2,
            max_index: 2,
            max_version: 2,
            depth: if thorough { 11 } else { 9 },
            ..Cfg::default()
        },
        Cfg {
            name: "nested layouts",
            layout: 0,
            registered: 0b1000,
            register: vec![0, 2],
            layouts: vec![3, 6, 16],
            create: vec![8, 15],
            insert: vec![5, 2],
            remove: vec![8],
            reset: true,
            max_live: 2,
            max_index: 2,
            max_version: 2,
            depth: if thorough { 10 } else { 8 },
            ..Cfg::default()
        },
    ];
    if thorough {
        v.push(Cfg {
            name: "three entities",
            layout: 3,
            registered: 0b0111,
            register: vec![3],
            layouts: vec![6],
            create: vec![3, 7],
            insert: vec![4, 8],
            remove: vec![1],
            clear: true,
            depth: 9,
            ..Cfg::default()
        });
    }
    v
}

// ---------------------------------------------------------------------------------------------
// Sequences of builder calls.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Call {
    SetLayout(u8),
    /// A group, by type or not.
    Group(u8, bool),
    Register(u8, bool),
    Build,
}

const CALLS: &[Call] = &[
    Call::SetLayout(0),
    Call::SetLayout(1),
    Call::SetLayout(4),
    Call::SetLayout(10),
    Call::Group(0b0011, true),
    Call::Group(0b0111, false),
    Call::Group(0b1100, true),
    Call::Group(0b0110, false),
    Call::Group(0b1111, true),
    Call::Register(0, true),
    Call::Register(1, false),
    Call::Register(2, true),
    Call::Register(3, false),
    Call::Build,
];

/// Whether all groups are disjoint or nested, and none contains two disjoint ones.
fn compatible(groups: &[u8]) -> bool {
    groups.iter().all(|&a| {
        groups.iter().all(|&b| {
            (a & b == 0 || a & b == a || a & b == b) && !(a & b == 0 && groups.iter().any(|&c| c & (a | b) == (a | b)))
        })
    })
}

macro_rules! typed_group {
    (($b:ident) $(($T:ident, $v:ident, $i:tt))*) => { { let _ = $b.add_group::<($($T,)*)>(); } };
}

fn add_group(b: &mut WorldBuilder, mask: u8, typed: bool) {
    if !typed {
        b.add_group_dyn(&group_data(mask));
        return;
    }
    match mask {
        3 => typed_group!((b)(A, a, 0)(B, b, 0)),
        7 => typed_group!((b)(A, a, 0)(B, b, 0)(C, c, 0)),
        12 => typed_group!((b)(C, c, 0)(D, d, 0)),
        6 => typed_group!((b)(B, b, 0)(C, c, 0)),
        _ => typed_group!((b)(D, d, 0)(B, b, 0)(A, a, 0)(C, c, 0)),
    }
}

macro_rules! query {
    (($w:ident, $group:ident, $mask:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        let mut q = $w.query_all::<($(&$T,)*)>();
        if $group && (!q.iter().is_dense() || q.slice().is_none()) {
            err!("the group {} does not work", mask_name($mask));
        }
        q.iter().count()
    }};
}

/// The groups are groups; returns how many entities have each set of components.
fn grouped(w: &World, groups: &[u8], registered: u8) -> Result<Vec<usize>, String> {
    let mut out = Vec::new();
    for mask in 1..16u8 {
        if mask & !registered == 0 {
            let group = groups.contains(&mask);
            out.push(for_mask!(mask, query, w, group, mask));
        }
    }
    Ok(out)
}

/// Checks a world made by a builder, also after filling it.
fn built(w: World, groups: &[u8], registered: u8) -> Result<(), String> {
    let mut x = Exec { w, m: Model { registered, ..Model::default() } };
    observe::registration(&x)?;
    observe::basic(&x)?;
    grouped(&x.w, groups, registered)?;
    for mask in 0..16 {
        if mask & !registered == 0 {
            x.create(mask)?;
        }
    }
    let n = x.m.ents.len() as u8;
    for s in 0..n {
        let e = x.slot(s)?;
        let m = s * 5 % 16 & registered;
        if m != 0 {
            x.insert(e, m)?;
        }
        let m = s * 3 % 16 & registered;
        if m != 0 {
            x.remove(e, m)?;
        }
    }
    observe::basic(&x)?;
    let live = ledger::live_count();
    let counts = grouped(&x.w, groups, registered)?;
    let mut want = Vec::new();
    for mask in 1..16u8 {
        if mask & !registered == 0 {
            want.push(x.m.ents.iter().filter(|r| mc::exec::row_mask(&r.1) & mask == mask).count());
        }
    }
    if counts != want {
        err!("queries find {counts:?} entities, expected {want:?}");
    }
    let stored: usize = x.m.ents.iter().map(|r| usize::from(r.1[0].is_some()) + usize::from(r.1[1].is_some())).sum();
    let w = x.w;
    alloc::tagged(|| drop(w));
    if ledger::live_count() + stored != live {
        err!("dropping a world drops {} values of {stored}", live - ledger::live_count());
    }
    Exec::side_errors()
}

/// What the builder is supposed to make.
#[derive(Clone, Default)]
struct Plan {
    groups: Vec<u8>,
    registered: u8,
}

impl Plan {
    fn all(&self) -> u8 {
        self.groups.iter().fold(self.registered, |a, g| a | g)
    }
}

fn run_calls(calls: &[Call]) -> Result<(), String> {
    guarded(|| {
        begin_run();
        let mut b = World::builder();
        let mut p = Plan::default();
        let mut worlds: Vec<(World, Plan)> = Vec::new();
        for call in calls {
            match *call {
                Call::SetLayout(k) => {
                    b.set_layout(layout(k as usize));
                    p.groups = LAYOUTS[k as usize].to_vec();
                }
                Call::Group(g, typed) => {
                    let mut more = p.groups.clone();
                    if !more.contains(&g) {
                        more.push(g);
                    }
                    let want = compatible(&more);
                    let ok = catch_unwind(AssertUnwindSafe(|| add_group(&mut b, g, typed))).is_ok();
                    if ok != want {
                        err!("adding the group {} to {:?} was {}", mask_name(g), p.groups, if ok { "accepted" } else { "refused" });
                    }
                    if ok {
                        p.groups = more;
                    }
                }
                Call::Register(c, typed) => {
                    match (c, typed) {
                        (0, true) => b.register::<A>(),
                        (2, true) => b.register::<C>(),
                        _ => b.register_dyn(component_data(c as usize)),
                    };
                    p.registered |= 1 << c;
                }
                Call::Build => worlds.push((alloc::tagged(|| b.build()), p.clone())),
            }
        }
        let clone = b.clone();
        for _ in 0..2 {
            worlds.push((alloc::tagged(|| b.build()), p.clone()));
        }
        worlds.push((alloc::tagged(|| clone.build()), p.clone()));
        drop(b);
        // What happens to one world does not concern the others.
        let (mut first, plan) = worlds.swap_remove(0);
        alloc::tagged(|| {
            first.create(());
            first.set_layout(&GroupLayout::default());
            first.register::<A>();
            first.register::<B>();
        });
        let e = {
            let (a, _) = A::make();
            let (b, _) = B::make();
            alloc::tagged(|| first.create((b, a)))
        };
        for (i, (w, p)) in worlds.into_iter().enumerate() {
            built(w, &p.groups, p.all()).map_err(|m| format!("world {}: {m}", i + 2))?;
            if !first.contains_entity(e) || !first.contains::<(&A, &B)>(e) || first.entities().len() != 2 {
                err!("the first world changed");
            }
        }
        alloc::tagged(|| {
            first.reset();
            let l = {
                let mut l = GroupLayout::default();
                for g in &plan.groups {
                    l.add_group_dyn(&group_data(*g));
                }
                l
            };
            first.set_layout(&l);
        });
        built(first, &plan.groups, plan.all() | 3).map_err(|m| format!("world 1: {m}"))?;
        if ledger::live_count() != 0 || ledger::live_zst() != 0 {
            err!("{} values were not dropped", ledger::live_count());
        }
        Ok(())
    })?;
    Exec::check_balance()
}

// ---------------------------------------------------------------------------------------------
// Many types.

/// Operations on a world with many types.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Many {
    /// Registers another type, dynamically or not.
    New(bool),
    /// Registers all types again.
    Again,
    /// Creates an entity that has all types.
    Fill,
    Destroy,
    Clear,
    Reset,
    /// Sets a layout.
    Layout(u8),
}

const MANY: &[Many] = &[
    Many::New(false),
    Many::New(true),
    Many::Again,
    Many::Fill,
    Many::Destroy,
    Many::Clear,
    Many::Reset,
    Many::Layout(0),
    Many::Layout(1),
    Many::Layout(2),
    Many::Layout(3),
];

/// The groups of a layout, for a world with `n` types.
fn many_groups(k: u8, n: usize) -> Vec<Vec<usize>> {
    match k {
        0 => vec![],
        // Pairs of the first types.
        1 => (0..4.min(n / 2)).map(|i| vec![2 * i + 1, 2 * i]).collect(),
        // Nested groups of the last types, some of which are new.
        2 => vec![(n.saturating_sub(2)..n + 2).rev().collect(), (n.saturating_sub(3)..n + 3).collect()],
        // Far apart.
        _ => vec![vec![0, n + 1], vec![n / 2 + 1, n]],
    }
    .into_iter()
    .filter(|g: &Vec<usize>| g.iter().collect::<std::collections::BTreeSet<_>>().len() == g.len())
    .collect()
}

fn run_many(n: usize, how: u8, ops: &[Many]) -> Result<(), String> {
    let kinds = all_kinds();
    begin_run();
    let mut registered = vec![false; kinds.len()];
    let mut count = n;
    let mut b = World::builder();
    for (i, x) in kinds.iter().enumerate().take(n) {
        registered[i] = true;
        match how {
            0 => {
                b.register_dyn((x.3)());
            }
            1 if i % 2 == 1 => {
                b.add_group_dyn(&[(kinds[i - 1].3)(), (x.3)()]);
            }
            1 if i + 1 == n => {
                b.register_dyn((x.3)());
            }
            _ => {}
        }
    }
    // How many groups there can be is another property's business.
    if how == 1 && n / 2 > 64 {
        return Ok(());
    }
    let mut w = alloc::tagged(|| b.build());
    if how == 2 {
        for x in kinds.iter().take(n) {
            if !alloc::tagged(|| (x.0)(&mut w)) {
                err!("a new type was reported as registered");
            }
        }
    }
    // The living entities and the types they have.
    let mut ents: Vec<(sparsey::Entity, Vec<bool>)> = Vec::new();
    let check = |w: &World, registered: &[bool], ents: &[(sparsey::Entity, Vec<bool>)], count: usize| -> Result<(), String> {
        for (i, x) in kinds.iter().enumerate().take(count + 8) {
            let want = registered[i];
            if (x.4)(w) != want || w.is_registered_dyn((x.3)().type_id()) != want {
                err!("type {i} of {count}: is_registered is wrong, expected {want}");
            }
            if !want {
                continue;
            }
            for (e, has) in ents {
                let got = (x.2)(w, *e);
                let want = has[i].then_some(i as u32);
                if got != want {
                    err!("type {i} of {count}: an entity has {got:?}, expected {want:?}");
                }
            }
        }
        Ok(())
    };
    let fill = |w: &mut World, registered: &[bool], ents: &mut Vec<(sparsey::Entity, Vec<bool>)>, x: &[Register]| {
        let e = alloc::tagged(|| w.create(()));
        for (i, x) in x.iter().enumerate() {
            if registered[i] {
                alloc::tagged(|| (x.1)(w, e));
            }
        }
        ents.push((e, registered.to_vec()));
    };
    fill(&mut w, &registered, &mut ents, &kinds);
    check(&w, &registered, &ents, count)?;
    for (at, op) in ops.iter().enumerate() {
        match *op {
            Many::New(dynamic) => {
                let i = registered.iter().position(|r| !r).unwrap();
                let x = &kinds[i];
                let new = alloc::tagged(|| if dynamic { w.register_dyn((x.3)()) } else { (x.0)(&mut w) });
                if !new {
                    err!("type {i} is new, but was reported as registered");
                }
                registered[i] = true;
                count = count.max(i + 1);
                if let Some((e, has)) = ents.last_mut() {
                    alloc::tagged(|| (x.1)(&mut w, *e));
                    has[i] = true;
                }
            }
            Many::Again => {
                for (i, x) in kinds.iter().enumerate() {
                    if registered[i] && (alloc::tagged(|| (x.0)(&mut w)) || alloc::tagged(|| w.register_dyn((x.3)()))) {
                        err!("type {i} was registered twice");
                    }
                }
            }
            Many::Fill => fill(&mut w, &registered, &mut ents, &kinds),
            Many::Destroy => {
                if let Some((e, _)) = ents.pop() {
                    if !alloc::tagged(|| w.destroy(e)) {
                        err!("a living entity cannot be destroyed");
                    }
                }
            }
            Many::Clear => {
                alloc::tagged(|| w.clear());
                ents.clear();
            }
            Many::Reset => {
                alloc::tagged(|| w.reset());
                ents.clear();
            }
            Many::Layout(k) => {
                let mut l = GroupLayout::default();
                for g in many_groups(k, count) {
                    let g: Vec<_> = g
                        .into_iter()
                        .map(|i| {
                            registered[i] = true;
                            (kinds[i].3)()
                        })
                        .collect();
                    l.add_group_dyn(&g);
                }
                alloc::tagged(|| w.set_layout(&l));
                count = registered.iter().rposition(|r| *r).map_or(0, |i| i + 1);
            }
        }
        check(&w, &registered, &ents, count).map_err(|m| format!("after operation {}: {m}", at + 1))?;
    }
    alloc::tagged(|| drop(w));
    Exec::check_balance()
}

struct C16(BfsCheck<Obs>);

fn enc(calls: &[u8]) -> String {
    format!("b|{}", calls.iter().map(u8::to_string).collect::<Vec<_>>().join(","))
}

impl C16 {
    fn many(&self, ctx: &Ctx) {
        let thorough = ctx.tier == Tier::Thorough;
        let sizes: Vec<usize> = if thorough {
            (0..=135).chain(254..=258).collect()
        } else {
            (0..=18).chain(30..=34).chain(62..=66).chain(127..=129).collect()
        };
        let k = MANY.len();
        let max: u32 = if thorough { 3 } else { 2 };
        let all: usize = (0..=max).map(|l| k.pow(l)).sum();
        ctx.parallel(sizes.len() * 3, |job| {
            let (n, how) = (sizes[job / 3], (job % 3) as u8);
            for l in 0..=max {
                for mut c in 0..k.pow(l) {
                    let ids: Vec<usize> = (0..l)
                        .map(|_| {
                            let x = c % k;
                            c /= k;
                            x
                        })
                        .collect();
                    let case = format!("m|{n}|{how}|{}", ids.iter().map(usize::to_string).collect::<Vec<_>>().join(","));
                    ctx.begin(&case);
                    let ops: Vec<Many> = ids.iter().map(|i| MANY[*i]).collect();
                    if let Err(m) = guarded(|| run_many(n, how, &ops)) {
                        ctx.violation(&case, &m);
                        return;
                    }
                    ctx.add("transitions", ops.len() as u64);
                    ctx.add("traces_validated_against_impl", 1);
                    ctx.add("states", 1);
                }
            }
        });
        ctx.note("many types", &format!("worlds with {} numbers of types up to {}, made in three ways, each with {all} sequences of up to {max} operations", sizes.len(), sizes.last().unwrap()));
    }
}

fn dec_many(case: &str) -> Option<(usize, u8, Vec<Many>)> {
    let mut p = case.strip_prefix("m|")?.split('|');
    let n = p.next()?.parse().ok()?;
    let how = p.next()?.parse().ok()?;
    let ops = p.next()?.split(',').filter_map(|x| MANY.get(x.parse::<usize>().ok()?).copied()).collect();
    Some((n, how, ops))
}

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        self.0.explore(ctx);
        let n = CALLS.len();
        let max = if ctx.tier == Tier::Thorough { 6 } else { 5 };
        for len in 0..=max {
            let total = n.pow(len);
            ctx.parallel(total.div_ceil(64), |job| {
                for code in job * 64..(job * 64 + 64).min(total) {
                    let mut c = code;
                    let ids: Vec<u8> = (0..len)
                        .map(|_| {
                            let x = c % n;
                            c /= n;
                            x as u8
                        })
                        .collect();
                    let calls: Vec<Call> = ids.iter().map(|i| CALLS[*i as usize]).collect();
                    let case = enc(&ids);
                    ctx.begin(&case);
                    if let Err(m) = run_calls(&calls) {
                        ctx.violation(&case, &format!("{calls:?}: {m}"));
                        return;
                    }
                }
                let done = (job * 64 + 64).min(total) - job * 64;
                ctx.add("sequences_of_builder_calls", done as u64);
                ctx.add("states", done as u64);
                ctx.add("transitions", done as u64 * u64::from(len));
                ctx.add("traces_validated_against_impl", done as u64);
            });
            if ctx.stopped() {
                return;
            }
        }
        self.many(ctx);
        ctx.note("builder", &format!("all sequences of up to {max} of {n} calls"));
        ctx.sample(format!("{:?}", &CALLS[3..8]));
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        let run = || {
            if let Some(rest) = case.strip_prefix("b|") {
                let calls: Vec<Call> = rest.split(',').filter_map(|x| CALLS.get(x.parse::<usize>().ok()?).copied()).collect();
                return run_calls(&calls);
            }
            if let Some((n, how, ops)) = dec_many(case) {
                return run_many(n, how, &ops);
            }
            self.0.replay(case)
        };
        catch_unwind(AssertUnwindSafe(run)).unwrap_or_else(|_| Err(last_panic()))
    }
    fn explain(&self, case: &str) -> String {
        match case.strip_prefix("b|") {
            Some(rest) => {
                let v: Vec<String> = rest.split(',').filter_map(|x| Some(format!("{:?}", CALLS.get(x.parse::<usize>().ok()?)?))).collect();
                format!("builder calls {}", v.join(", "))
            }
            None => match dec_many(case) {
                Some((n, how, ops)) => {
                    let made = ["registered with the builder", "grouped in pairs", "registered with the world"];
                    format!("a world with {n} types, {}, with one entity that has them all; then {ops:?}", made[how as usize])
                }
                None => self.0.explain(case),
            },
        }
    }
    fn assumptions(&self) -> Vec<String> {
        self.0.assumptions()
    }
}

fn main() {
    let thorough = std::env::args().any(|a| a == "--thorough");
    let obs = Obs { continuations: if thorough { 3 } else { 2 } };
    engine::runner::main(&C16(BfsCheck { id: "C16", cfgs, obs, assumptions: &[] }))
}
