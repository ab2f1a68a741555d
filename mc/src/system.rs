//! The transition system of a world: alphabet, bounds and observations.

use crate::exec::{begin_run, layout_name, Exec, LAYOUTS};
use crate::observe;
use crate::op::{decode, encode, Op};
use engine::bfs::{self, Bounds, System};
use engine::runner::{last_panic, Check, Ctx, Tier};
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What to explore.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: &'static str,
    /// Initial layout.
    pub layout: u8,
    /// Initially registered components.
    pub registered: u8,
    pub create: Vec<u8>,
    pub extend: Vec<(u8, u8)>,
    pub insert: Vec<u8>,
    pub remove: Vec<u8>,
    pub delete: Vec<u8>,
    pub destroy: bool,
    pub atomic: bool,
    pub clear: bool,
    pub reset: bool,
    pub layouts: Vec<u8>,
    pub register: Vec<u8>,
    /// Operations before the initial state.
    pub setup: Vec<Op>,
    /// Operations are applied only to these positions in the list of living entities, if there are any.
    pub slots: Vec<u8>,
    /// At most this many living entities and pending creations.
    pub max_live: usize,
    /// At most this many indexes.
    pub max_index: u32,
    /// Entities with this version are not destroyed.
    pub max_version: u32,
    /// States that differ by a renaming of indexes are the same.
    pub relabel: bool,
    pub depth: usize,
    pub states: usize,
}

impl Cfg {
    /// The operations from the empty world on.
    pub fn full(&self, history: &[Op]) -> Vec<Op> {
        let mut v = self.setup.clone();
        v.extend_from_slice(history);
        v
    }

    /// Starts from a world of `n` entities that have various components, and applies operations to few
    /// of them.
    pub fn large(self, n: u32) -> Self {
        const MASKS: [u8; 11] = [15, 3, 7, 0, 8, 1, 6, 12, 5, 2, 14];
        // Most entities of the largest populations have all components.
        let rare = if n < 300 { 1 } else { 4 };
        let mask = |i: usize| if i % rare != 0 { 15 } else { MASKS[i / rare % MASKS.len()] };
        let mut setup = Vec::new();
        let mut left = n;
        for (i, mask) in (0..).map(|i| (i, mask(i))) {
            if left == 0 {
                break;
            }
            let i = i as u32 % 4;
            let count = (if n < 1000 { 1 + i } else { 10 + i * 80 }).min(left);
            left -= count;
            match mask & self.registered {
                0 => setup.extend(vec![Op::Create(0); count as usize]),
                m => setup.push(Op::Extend(m, count as u8)),
            }
        }
        let mut slots = if n > 250 { vec![0, 253, 254, 255] } else { vec![0, n as u8 / 2, n as u8 - 1] };
        slots.dedup();
        Self { name: "a larger population", setup, slots, max_live: n as usize + 1, max_index: n + 1, ..self }
    }
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            name: "",
            layout: 0,
            registered: 0b0111,
            create: vec![],
            extend: vec![],
            insert: vec![],
            remove: vec![],
            delete: vec![],
            destroy: true,
            atomic: false,
            clear: false,
            reset: false,
            layouts: vec![],
            register: vec![],
            setup: vec![],
            slots: vec![],
            max_live: 3,
            max_index: 3,
            max_version: 2,
            relabel: false,
            depth: 64,
            states: 3_000_000,
        }
    }
}

/// Observations made on a run.
pub trait Observer: Sync {
    /// After the last operation of every history.
    fn transition(&self, x: &mut Exec, _history: &[Op]) -> Result<(), String> {
        observe::basic(x)
    }
    /// In every new state.
    fn new_state(&self, x: &mut Exec, _history: &[Op]) -> Result<(), String> {
        observe::full(x)
    }
    /// For every new state, after the run that reached it has ended.
    fn after(&self, _cfg: &Cfg, _history: &[Op]) -> Result<(), String> {
        Ok(())
    }
}

pub struct Basic;
impl Observer for Basic {}

pub struct WorldSystem<'a, O> {
    pub cfg: &'a Cfg,
    pub index: usize,
    pub obs: &'a O,
}

/// Turns a panic of the code under test into a violation.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    }
}

/// Operations that may follow a state.
pub fn enabled(cfg: &Cfg, x: &Exec) -> Vec<Op> {
    let m = &x.m;
    let mut ops = Vec::new();
    let live = m.ents.len() + m.pending.len();
    let reg = m.registered;
    let used = m.max_index().map_or(0, |i| i + 1);
    // Creating n entities needs room among living entities and among indexes.
    let room = |n: u32| {
        live + n as usize <= cfg.max_live
            && (used + n <= cfg.max_index || used + n <= cfg.max_index + m.recyclable.min(n as usize) as u32)
    };
    if room(1) {
        for &c in &cfg.create {
            if c & !reg == 0 {
                ops.push(Op::Create(c));
            }
        }
        if cfg.atomic {
            ops.push(Op::Atomic);
        }
    }
    if cfg.atomic {
        ops.push(Op::Maintain);
    }
    let all: Vec<u8> = (0..m.ents.len().min(250) as u8).collect();
    for &s in if cfg.slots.is_empty() { &all } else { &cfg.slots } {
        let Ok(e) = x.slot(s) else { continue };
        for &c in &cfg.insert {
            if c & !reg == 0 {
                ops.push(Op::Insert(s, c));
            }
        }
        for &c in &cfg.remove {
            if c & !reg == 0 {
                ops.push(Op::Remove(s, c));
            }
        }
        for &c in &cfg.delete {
            if c & !reg == 0 {
                ops.push(Op::Delete(s, c));
            }
        }
        if cfg.destroy && e.version.0.get() < cfg.max_version {
            ops.push(Op::Destroy(s));
        }
    }
    for &(c, n) in &cfg.extend {
        if c & !reg == 0 && room(u32::from(n)) {
            ops.push(Op::Extend(c, n));
        }
    }
    if cfg.clear {
        ops.push(Op::Clear);
    }
    if cfg.reset {
        ops.push(Op::Reset);
    }
    for &k in &cfg.layouts {
        ops.push(Op::Layout(k));
    }
    for &c in &cfg.register {
        ops.push(Op::Register(c));
    }
    ops
}

impl<O: Observer> System for WorldSystem<'_, O> {
    type Op = Op;

    fn run(&self, history: &[Op], is_new: &dyn Fn(u128) -> bool) -> Result<u128, String> {
        let mut new = false;
        let key = guarded(|| {
            begin_run();
            let mut x = Exec::new(self.cfg.layout, self.cfg.registered);
            let full = self.cfg.full(history);
            for op in &full {
                x.apply(*op).map_err(|m| format!("{op:?}: {m}"))?;
            }
            let key = x.key(self.cfg.relabel);
            self.obs.transition(&mut x, &full)?;
            new = is_new(key);
            if new {
                self.obs.new_state(&mut x, &full)?;
            }
            x.finish()?;
            Ok(key)
        })?;
        Exec::check_balance()?;
        if new {
            guarded(|| self.obs.after(self.cfg, &self.cfg.full(history)))?;
        }
        Ok(key)
    }

    fn enabled(&self, history: &[Op]) -> Result<Vec<Op>, String> {
        guarded(|| {
            begin_run();
            let mut x = Exec::new(self.cfg.layout, self.cfg.registered);
            for op in &self.cfg.full(history) {
                x.apply(*op)?;
            }
            Ok(enabled(self.cfg, &x))
        })
    }

    fn encode(&self, history: &[Op]) -> String {
        format!("{}|{}", self.index, encode(history))
    }

    fn show(&self, history: &[Op]) -> String {
        format!("[{} layout {}] {history:?}", self.cfg.name, layout_name(self.cfg.layout as usize))
    }
}

/// Explores all configurations, one after the other.
pub fn explore_range<O: Observer>(ctx: &Ctx, cfgs: &[Cfg], range: Range<usize>, obs: &O) {
    let mut complete = 0;
    for (index, cfg) in cfgs.iter().enumerate().skip(range.start).take(range.len()) {
        if ctx.stopped() {
            ctx.cap("not all configurations were explored");
            break;
        }
        let t = ctx.elapsed();
        let sys = WorldSystem { cfg, index, obs };
        let (s, tr, d, c) = bfs::explore(ctx, &sys, &Bounds { depth: cfg.depth, states: cfg.states });
        if c {
            complete += 1;
        }
        ctx.max("max_depth", d as u64);
        ctx.note(
            "configurations",
            &format!(
                "{}{} layout={} live<={} indexes<={} versions<={}: {s} states, {tr} transitions, depth {d}{}",
                cfg.name,
                if cfg.setup.is_empty() { String::new() } else { format!(" (starting with {} operations)", cfg.setup.len()) },
                layout_name(cfg.layout as usize),
                cfg.max_live,
                cfg.max_index,
                cfg.max_version,
                if c { ", all reachable states" } else { ", bounded by depth" }
            ),
        );
        if std::env::var("ENGINE_PROGRESS").is_ok() {
            eprintln!(
                "{index} {} {}: {s} states {tr} transitions depth {d} complete={c} {:.1}s",
                cfg.name,
                layout_name(cfg.layout as usize),
                (ctx.elapsed() - t).as_secs_f64()
            );
        }
        if !c && !ctx.stopped() && s >= cfg.states {
            ctx.cap(&format!("{}: stopped at {s} states, depth {d}", cfg.name));
        }
    }
    ctx.add("configurations_explored", range.len() as u64);
    ctx.add("configurations_with_all_reachable_states", complete);
}

/// Replays a case made by `explore_range`.
pub fn replay<O: Observer>(cfgs: &[Cfg], obs: &O, case: &str) -> Result<(), String> {
    let (i, ops) = case.split_once('|').ok_or("bad case")?;
    let index: usize = i.parse().map_err(|_| "bad case")?;
    let sys = WorldSystem { cfg: &cfgs[index], index, obs };
    let ops = decode(ops);
    // Every prefix is observed: the case may come from a crash anywhere.
    for n in 0..=ops.len() {
        sys.run(&ops[..n], &|_| true)?;
    }
    // The case may also be a state whose successors were being explored.
    let next = sys.enabled(&ops)?;
    let mut h = ops;
    for op in next {
        h.push(op);
        sys.run(&h, &|_| true)?;
        h.pop();
    }
    Ok(())
}

pub fn explain(cfgs: &[Cfg], case: &str) -> String {
    let Some((i, ops)) = case.split_once('|') else { return case.to_string() };
    let Some(cfg) = i.parse::<usize>().ok().and_then(|i| cfgs.get(i)) else { return case.to_string() };
    let mut s = format!(
        "world with layout {} and components {} registered:\n",
        layout_name(cfg.layout as usize),
        crate::comps::mask_name(cfg.registered)
    );
    for (n, op) in cfg.full(&decode(ops)).iter().enumerate() {
        s.push_str(&format!("  {}. {op:?}\n", n + 1));
    }
    s
}

/// All nonempty subsets of a mask.
pub fn subsets(mask: u8) -> Vec<u8> {
    (1..16).filter(|m| m & !mask == 0).collect()
}

/// Single components of a mask.
pub fn singles(mask: u8) -> Vec<u8> {
    (0..4).map(|i| 1 << i).filter(|m| m & mask != 0).collect()
}

pub fn layout_count() -> usize {
    LAYOUTS.len()
}

/// Contents seen so far, up to a renaming of entities.
#[derive(Default)]
pub struct UpToRenaming(bfs::Visited);

impl UpToRenaming {
    pub fn is_new(&self, x: &Exec) -> bool {
        self.0.insert(x.content_key())
    }
}

/// A check made of configurations and an observer.
pub struct BfsCheck<O> {
    pub id: &'static str,
    pub cfgs: fn(Tier) -> Vec<Cfg>,
    pub obs: O,
    pub assumptions: &'static [&'static str],
}

impl<O: Observer> BfsCheck<O> {
    fn all(&self) -> (Vec<Cfg>, usize) {
        // Cases of either tier can be replayed: quick configurations come first.
        let mut v = (self.cfgs)(Tier::Quick);
        let n = v.len();
        v.extend((self.cfgs)(Tier::Thorough));
        (v, n)
    }
}

impl<O: Observer> Check for BfsCheck<O> {
    fn id(&self) -> &'static str {
        self.id
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        let (cfgs, quick) = self.all();
        explore_range(ctx, &cfgs, if ctx.tier == Tier::Quick { 0..quick } else { quick..cfgs.len() }, &self.obs);
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        replay(&self.all().0, &self.obs, case)
    }
    fn explain(&self, case: &str) -> String {
        explain(&self.all().0, case)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = vec![
            "states are merged when the debug output of the world, the order of entities in all storages, and all issued handles agree".to_string(),
        ];
        v.extend(self.assumptions.iter().map(|s| (*s).to_string()));
        v
    }
}
