//! Walks that take every step from every state within the bounds.

use crate::lean::{begin, Cfg, Lean, Step};
use engine::runner::Ctx;
use mc::op::{decode, encode, Op};
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Longest walk.
const LENGTH: usize = 96;

pub fn show(steps: &[Step]) -> String {
    let v: Vec<String> = steps
        .iter()
        .map(|s| match s {
            Step::Op(op) => encode(&[*op]),
            Step::Fault(op, n) => format!("!{n}!{}", encode(&[*op])),
            Step::Use => "U".into(),
        })
        .collect();
    v.join(",")
}

pub fn parse(text: &str) -> Vec<Step> {
    text.split(',')
        .filter(|t| !t.is_empty())
        .map(|t| match t.strip_prefix('!') {
            Some(t) => {
                let (n, op) = t.split_once('!').expect("step");
                Step::Fault(decode(op)[0], n.parse().expect("step"))
            }
            None if t == "U" => Step::Use,
            None => Step::Op(decode(t)[0]),
        })
        .collect()
}

#[derive(Default)]
struct State {
    todo: VecDeque<Step>,
    next: HashMap<Step, usize>,
}

#[derive(Default)]
pub struct Plan {
    pub walks: Vec<Vec<Step>>,
    pub states: u64,
    pub transitions: u64,
    pub complete: bool,
    /// Steps that panicked, natively.
    pub panics: u64,
}

struct Graph {
    ids: HashMap<String, usize>,
    states: Vec<State>,
    full: bool,
}

impl Graph {
    /// The state of a world; whether it is new. `None`: beyond the bounds.
    fn at(&mut self, x: &Lean, cfg: &Cfg) -> Option<(usize, bool)> {
        let key = x.key();
        if let Some(id) = self.ids.get(&key) {
            return Some((*id, false));
        }
        if self.states.len() >= cfg.states {
            self.full = true;
            return None;
        }
        let id = self.states.len();
        self.ids.insert(key, id);
        let mut s = State::default();
        for op in &cfg.ops {
            if x.applicable(*op, cfg.max_live) {
                s.todo.push_back(Step::Op(*op));
            }
        }
        if cfg.faults {
            for op in &cfg.ops {
                let drops = !matches!(op, Op::Create(_) | Op::Extend(..) | Op::Atomic | Op::Maintain | Op::Register(_));
                if drops && x.applicable(*op, cfg.max_live) {
                    s.todo.push_back(Step::Fault(*op, 1));
                }
            }
        }
        self.states.push(s);
        Some((id, true))
    }

    /// The way to the nearest state that has something left to do.
    fn path(&self, from: usize, limit: usize) -> Option<Vec<Step>> {
        let mut came: HashMap<usize, (usize, Step)> = HashMap::new();
        let mut queue = VecDeque::from([(from, 0)]);
        while let Some((s, d)) = queue.pop_front() {
            if !self.states[s].todo.is_empty() {
                let mut way = Vec::new();
                let mut at = s;
                while at != from {
                    let (p, step) = came[&at];
                    way.push(step);
                    at = p;
                }
                way.reverse();
                return Some(way);
            }
            if d < limit {
                let mut next: Vec<_> = self.states[s].next.iter().map(|(a, b)| (show(&[*a]), *a, *b)).collect();
                next.sort_by(|a, b| a.0.cmp(&b.0));
                for (_, step, t) in next {
                    if t != from && !came.contains_key(&t) {
                        came.insert(t, (s, step));
                        queue.push_back((t, d + 1));
                    }
                }
            }
        }
        None
    }
}

pub fn plan(ctx: &Ctx, index: usize, cfg: &Cfg) -> Plan {
    let mut out = Plan::default();
    let mut g = Graph { ids: HashMap::new(), states: Vec::new(), full: false };
    let mut idle = 0;
    while !ctx.stopped() && idle < 50 {
        let before = out.transitions;
        begin();
        let mut x = Lean::new(cfg.layout, cfg.registered);
        let mut walk: Vec<Step> = Vec::new();
        let mut way: VecDeque<Step> = VecDeque::new();
        let mut finished = false;
        for op in &cfg.setup {
            walk.push(Step::Op(*op));
            x.op(*op);
        }
        while walk.len() < LENGTH + cfg.setup.len() {
            let Some((id, new)) = g.at(&x, cfg) else { break };
            if new {
                walk.push(Step::Use);
            }
            let step = if let Some(s) = g.states[id].todo.pop_front() {
                way.clear();
                out.transitions += 1;
                s
            } else {
                if way.is_empty() {
                    match g.path(id, LENGTH) {
                        Some(w) => way = w.into(),
                        None => {
                            finished = walk.iter().filter(|s| **s != Step::Use).count() == cfg.setup.len();
                            break;
                        }
                    }
                }
                way.pop_front().unwrap()
            };
            walk.push(step);
            ctx.begin(&format!("{index}|{}", show(&walk)));
            let fired = match catch_unwind(AssertUnwindSafe(|| x.step(step))) {
                Ok(f) => f,
                Err(_) => {
                    out.panics += 1;
                    break;
                }
            };
            if let (Step::Fault(op, n), true) = (step, fired) {
                let again = Step::Fault(op, n + 1);
                if !g.states[id].next.contains_key(&again) && !g.states[id].todo.contains(&again) {
                    g.states[id].todo.push_back(again);
                }
            }
            match g.at(&x, cfg) {
                Some((to, new)) => {
                    if new {
                        walk.push(Step::Use);
                    }
                    g.states[id].next.insert(step, to);
                }
                None => break,
            }
        }
        let _ = catch_unwind(AssertUnwindSafe(move || drop(x)));
        if out.transitions == before {
            idle += 1;
        } else {
            out.walks.push(walk);
        }
        if finished {
            break;
        }
    }
    ctx.end();
    out.states = g.states.len() as u64;
    out.complete = !g.full && g.states.iter().all(|s| s.todo.is_empty());
    out
}
