//! Whether the safe interface can be used to cause undefined behaviour: walks through all states of
//! small worlds, run in an interpreter that detects it.

mod lean;
mod plan;

use engine::runner::{Check, Ctx, Tier};
use lean::{begin, Cfg, Lean, Step};
use mc::exec::layout_name;
use mc::op::Op;
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const BASE: &[Op] = &[];

fn ops(create: &[u8], insert: &[u8], remove: &[u8], slots: u8, more: &[Op]) -> Vec<Op> {
    let mut v: Vec<Op> = BASE.to_vec();
    v.extend(create.iter().map(|m| Op::Create(*m)));
    for s in 0..slots {
        v.extend(insert.iter().map(|m| Op::Insert(s, *m)));
        v.extend(remove.iter().map(|m| Op::Remove(s, *m)));
        v.push(Op::Destroy(s));
    }
    v.extend_from_slice(more);
    v
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 10] } else { &[3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, three components",
            layout,
            registered: 0b0111,
            setup: vec![],
            ops: ops(&[0, 7], &[1, 2, 4], &[1, 2, 4], 2, &[]),
            faults: true,
            max_live: 2,
            states: usize::MAX,
        });
    }
    let layouts: &[u8] = if thorough { &[0, 1, 4, 5, 6, 13] } else { &[6] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, four components",
            layout,
            registered: 0b1111,
            setup: vec![],
            ops: if thorough { ops(&[15], &[1, 2, 4, 8], &[1, 2, 4, 8], 2, &[]) } else { ops(&[15], &[2, 8], &[1, 4], 2, &[]) },
            faults: false,
            max_live: 2,
            states: usize::MAX,
        });
    }
    let layouts: &[u8] = if thorough { &[0, 1] } else { &[1] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, two components",
            layout,
            registered: 0b0011,
            setup: vec![],
            ops: ops(&[1, 3], &[2], &[1, 2], 3, &[]),
            faults: thorough,
            max_live: 3,
            states: usize::MAX,
        });
    }
    let layouts: &[u8] = if thorough { &[0, 1, 3, 7] } else { &[] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, three components",
            layout,
            registered: 0b0111,
            setup: vec![],
            ops: ops(&[1, 3, 7], &[6], &[1, 2, 4], 3, &[]),
            faults: false,
            max_live: 3,
            states: 1500,
        });
    }
    v.push(Cfg {
        name: "everything else",
        layout: 0,
        registered: 0b0001,
        setup: vec![],
        ops: ops(
            &[0, 15],
            &[6],
            &[3],
            2,
            &[
                Op::Extend(7, 2),
                Op::Delete(0, 13),
                Op::Atomic,
                Op::Maintain,
                Op::Clear,
                Op::Reset,
                Op::Layout(0),
                Op::Layout(3),
                Op::Layout(6),
                Op::Register(1),
                Op::Register(3),
            ],
        ),
        faults: true,
        max_live: 3,
        states: if thorough { 2_000 } else { 200 },
    });
    for &n in if thorough { &[5, 9, 17, 33, 65][..] } else { &[5, 17][..] } {
        for &layout in if thorough { &[0, 3, 6][..] } else { &[6][..] } {
            v.push(Cfg {
                name: "a larger population",
                layout,
                registered: 0b1111,
                setup: vec![
                    Op::Extend(15, n / 2),
                    Op::Extend(5, n / 4),
                    Op::Create(8),
                    Op::Extend(3, n - n / 2 - n / 4 - 1),
                ],
                ops: ops(&[15], &[4], &[1, 2], 1, &[Op::Destroy(n / 2), Op::Remove(n - 2, 3), Op::Clear, Op::Layout(3)]),
                faults: false,
                max_live: n as usize + 2,
                states: if thorough { 60 } else { 12 },
            });
        }
    }
    v
}

fn all() -> (Vec<Cfg>, usize) {
    let mut v = cfgs(Tier::Quick);
    let n = v.len();
    v.extend(cfgs(Tier::Thorough));
    (v, n)
}

// ---------------------------------------------------------------------------------------------
// In the interpreter.

fn walk(cfgs: &[Cfg], case: &str, verbose: bool) {
    let (i, steps) = case.split_once('|').expect("case");
    let cfg = &cfgs[i.parse::<usize>().expect("case")];
    begin();
    let r = std::panic::catch_unwind(|| {
        let mut x = Lean::new(cfg.layout, cfg.registered);
        for (n, s) in plan::parse(steps).into_iter().enumerate() {
            if verbose {
                println!("S {n}");
            }
            x.step(s);
        }
    });
    if r.is_err() {
        println!("P");
    }
}

fn interpreted(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let (cfgs, _) = all();
    match args.get(1).map(String::as_str) {
        Some("one") => walk(&cfgs, &args[2], true),
        Some("all") => {
            let t = Instant::now();
            let limit = Duration::from_secs(args[3].parse().expect("limit"));
            for (n, case) in fs::read_to_string(&args[2]).expect("walks").lines().enumerate() {
                if t.elapsed() > limit {
                    break;
                }
                println!("W {n}");
                walk(&cfgs, case, false);
            }
            println!("end");
        }
        _ => {}
    }
    std::io::stdout().flush().unwrap();
}

// ---------------------------------------------------------------------------------------------
// Outside.

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn miri(args: &[&str]) -> Child {
    let dir = option_env!("CARGO_MANIFEST_DIR").unwrap_or("/verif/mmiri");
    let script = PathBuf::from(dir).join("miri.sh");
    Command::new(script)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0)
        .spawn()
        .expect("miri")
}

fn kill(c: &mut Child) {
    let _ = Command::new("kill").args(["-9", "--", &format!("-{}", c.id())]).stderr(Stdio::null()).status();
    let _ = c.wait();
}

/// The interesting part of what the interpreter says.
fn complaint(stderr: &str) -> Option<String> {
    if stderr.contains("unsupported operation") || stderr.contains("resource exhaustion") {
        return None;
    }
    let line = stderr
        .lines()
        .find(|l| l.contains("unsafe precondition"))
        .or_else(|| stderr.lines().find(|l| l.starts_with("error: Undefined")))
        .or_else(|| stderr.lines().find(|l| l.starts_with("error")))?;
    let at = stderr.lines().find(|l| l.trim_start().starts_with("--> ")).unwrap_or("").trim();
    Some(format!("{} {at}", line.trim()))
}

struct C23;

impl C23 {
    /// Runs one case in the interpreter: what is wrong with it, and at which step.
    fn one(&self, case: &str, alive: &dyn Fn()) -> Option<(usize, String)> {
        let mut c = miri(&["one", case]);
        let mut step = 0;
        let err = c.stderr.take().unwrap();
        let errors = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = BufReader::new(err).read_to_string(&mut s);
            s
        });
        for line in BufReader::new(c.stdout.take().unwrap()).lines().map_while(Result::ok) {
            alive();
            if let Some(n) = line.strip_prefix("S ") {
                step = n.parse().unwrap_or(0);
            }
        }
        let ok = c.wait().is_ok_and(|s| s.success());
        let errors = errors.join().unwrap_or_default();
        if ok {
            return None;
        }
        complaint(&errors).map(|m| (step, m))
    }
}

impl Check for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn explore(&self, ctx: &Ctx) {
        let (cfgs, quick) = all();
        let range = if ctx.tier == Tier::Quick { 0..quick } else { quick..cfgs.len() };
        let mut cases: Vec<(usize, String)> = Vec::new();
        for (i, cfg) in cfgs.iter().enumerate().skip(range.start).take(range.len()) {
            let p = plan::plan(ctx, i, cfg);
            ctx.note(
                "configurations",
                &format!(
                    "{} layout={} live<={}{}: {} states, {} transitions, {} walks{}",
                    cfg.name,
                    layout_name(cfg.layout as usize),
                    cfg.max_live,
                    if cfg.faults { " with a panic at every destructor call" } else { "" },
                    p.states,
                    p.transitions,
                    p.walks.len(),
                    if p.complete { ", all reachable states" } else { ", bounded by number of states" }
                ),
            );
            if std::env::var("ENGINE_PROGRESS").is_ok() {
                let steps: usize = p.walks.iter().map(Vec::len).sum();
                eprintln!(
                    "{i} {}: {} states {} transitions {} walks {steps} steps complete={} panics={} {:?}",
                    cfg.name, p.states, p.transitions, p.walks.len(), p.complete, p.panics, ctx.elapsed()
                );
            }
            ctx.add("states", p.states);
            ctx.add("transitions", p.transitions);
            ctx.add("steps_that_panicked", p.panics);
            if let Some(w) = p.walks.last() {
                ctx.sample(plan::show(w).chars().take(400).collect());
            }
            cases.extend(p.walks.iter().map(|w| (w.len(), format!("{i}|{}", plan::show(w)))));
        }
        if std::env::var("C23_PLAN_ONLY").is_ok() {
            return;
        }
        // Dealt to the workers.
        let dir = root().join("work").join("C23");
        let n = ctx.workers.max(1);
        let mut shards: Vec<Vec<&str>> = vec![Vec::new(); n];
        for (i, (_, c)) in cases.iter().enumerate() {
            shards[i % n].push(c);
        }
        let limit = if ctx.tier == Tier::Quick { 330 } else { 5000 };
        let limit = (Duration::from_secs(limit).saturating_sub(ctx.elapsed())).as_secs().to_string();
        let done = AtomicU64::new(0);
        ctx.parallel(n, |k| {
            ctx.begin(&format!("shard {k}"));
            let file = dir.join(format!("walks.{k}"));
            fs::write(&file, shards[k].join("\n")).expect("walks");
            let mut c = miri(&["all", file.to_str().unwrap(), &limit]);
            let err = c.stderr.take().unwrap();
            let errors = std::thread::spawn(move || {
                let mut s = String::new();
                let _ = BufReader::new(err).read_to_string(&mut s);
                s
            });
            // Lets the watchdog know while the interpreter is starting or busy.
            let (tx, rx) = std::sync::mpsc::channel();
            let out = c.stdout.take().unwrap();
            let reader = std::thread::spawn(move || {
                for line in BufReader::new(out).lines().map_while(Result::ok) {
                    if tx.send(line).is_err() {
                        break;
                    }
                }
            });
            let mut at = None;
            let mut end = false;
            let mut quiet = 0;
            loop {
                match rx.recv_timeout(Duration::from_secs(1)) {
                    Ok(line) => {
                        quiet = 0;
                        if let Some(w) = line.strip_prefix("W ") {
                            if at.is_some() {
                                done.fetch_add(1, Ordering::Relaxed);
                            }
                            at = w.parse::<usize>().ok();
                        } else if line == "P" {
                            ctx.add("walks_ended_by_a_panic", 1);
                        } else if line == "end" {
                            end = true;
                            done.fetch_add(u64::from(at.is_some()), Ordering::Relaxed);
                        }
                    }
                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => quiet += 1,
                    Err(_) => break,
                }
                // A walk takes seconds; building takes at most a minute or two.
                if quiet < 240 {
                    ctx.alive();
                } else {
                    break;
                }
                if ctx.has_violation() {
                    break;
                }
            }
            if !end {
                kill(&mut c);
            }
            let ok = c.wait().is_ok_and(|s| s.success());
            drop(rx);
            let _ = reader.join();
            let errors = errors.join().unwrap_or_default();
            ctx.end();
            if ok && end || ctx.has_violation() {
                return;
            }
            // Something is wrong with the walk that was begun last: run it alone.
            let Some(case) = at.and_then(|n| shards[k].get(n)) else {
                ctx.cap(&format!("the interpreter did not run: {}", errors.lines().last().unwrap_or("")));
                return;
            };
            match self.one(case, &|| ctx.alive()) {
                Some((step, m)) => {
                    let (i, steps) = case.split_once('|').unwrap();
                    let steps = plan::parse(steps);
                    let case = format!("{i}|{}", plan::show(&steps[..(step + 1).min(steps.len())]));
                    ctx.violation(&case, &m);
                }
                None => ctx.cap(&format!("the interpreter stopped: {}", complaint(&errors).unwrap_or_default())),
            }
        });
        let done = done.into_inner();
        ctx.add("traces_validated_against_impl", done);
        ctx.add("walks", cases.len() as u64);
        if done < cases.len() as u64 && !ctx.has_violation() {
            ctx.cap(&format!("{done} of {} walks were run", cases.len()));
        }
    }
    fn replay(&self, case: &str) -> Result<(), String> {
        match self.one(case, &|| ()) {
            Some((step, m)) => Err(format!("step {}: {m}", step + 1)),
            None => Ok(()),
        }
    }
    fn explain(&self, case: &str) -> String {
        let (cfgs, _) = all();
        let Some((i, steps)) = case.split_once('|') else { return case.to_string() };
        let Some(cfg) = i.parse::<usize>().ok().and_then(|i| cfgs.get(i)) else { return case.to_string() };
        let mut s = format!(
            "world with layout {} and components {} registered:\n",
            layout_name(cfg.layout as usize),
            mc::comps::mask_name(cfg.registered)
        );
        for (n, step) in plan::parse(steps).iter().enumerate() {
            match step {
                Step::Op(op) => s.push_str(&format!("  {}. {op:?}\n", n + 1)),
                Step::Fault(op, k) => s.push_str(&format!("  {}. {op:?}, destructor call {k} panics\n", n + 1)),
                Step::Use => s.push_str(&format!("  {}. every view, query, lookup, slice\n", n + 1)),
            }
        }
        s
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "undefined behaviour is what Miri reports: invalid, dangling, misaligned or out-of-bounds accesses, uninitialized values, wrong deallocation, and aliasing violations under Tree Borrows".into(),
            "states are merged when the order of entities in all storages agree up to a renaming of entities".into(),
        ]
    }
}

fn main() {
    if cfg!(miri) {
        let args: Vec<String> = std::env::args().collect();
        interpreted(&args);
        return;
    }
    engine::runner::main(&C23)
}
