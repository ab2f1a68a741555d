//! Check driver: supervision of crashes and hangs, violation reporting, evidence.
//!
//! The binary is started as a supervisor, which runs the exploration in a child process. Every
//! worker records the case it is about to execute in its slot of a file, so when the child dies on a
//! signal (or hangs) the supervisor knows the candidate cases, re-runs each alone in a fresh child,
//! and reports a violation only for one that dies or hangs again.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SLOT: usize = 1 << 15;
pub const MAX_WORKERS: usize = 32;
const EXIT_HANG: i32 = 97;
const EXIT_VIOLATION: i32 = 1;
const EXIT_ERROR: i32 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Check: Sync {
    /// Property identifier.
    fn id(&self) -> &'static str;
    /// Evidence level.
    fn level(&self) -> &'static str;
    /// Explores everything within the bounds of the tier.
    fn explore(&self, ctx: &Ctx);
    /// Executes one case alone.
    fn replay(&self, case: &str) -> Result<(), String>;
    /// Human readable form of a case.
    fn explain(&self, case: &str) -> String {
        case.to_string()
    }
    /// Limit of the address space of the exploration (a replay has less).
    fn address_space(&self) -> u64 {
        26 << 30
    }
    /// Assumptions listed in the evidence.
    fn assumptions(&self) -> Vec<String> {
        Vec::new()
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub workers: usize,
    dir: PathBuf,
    slots: Option<File>,
    progress: Vec<(AtomicU64, AtomicBool)>,
    start: Instant,
    stop: AtomicBool,
    capped: AtomicBool,
    counters: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    found: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    next_worker: AtomicUsize,
    deadline: Option<Duration>,
}

thread_local! {
    static WORKER: Cell<Option<usize>> = const { Cell::new(None) };
}

impl Ctx {
    /// Worker index of the current thread.
    fn worker(&self) -> usize {
        WORKER.get().unwrap_or_else(|| {
            let w = self.next_worker.fetch_add(1, Ordering::Relaxed) % MAX_WORKERS;
            WORKER.set(Some(w));
            w
        })
    }

    /// Declares the case that the current thread is about to execute.
    pub fn begin(&self, case: &str) {
        let w = self.worker();
        self.progress[w].0.fetch_add(1, Ordering::Relaxed);
        self.progress[w].1.store(true, Ordering::Relaxed);
        if let Some(slots) = &self.slots {
            let b = case.as_bytes();
            let n = b.len().min(SLOT - 8);
            let mut buf = Vec::with_capacity(n + 4);
            buf.extend_from_slice(&(n as u32).to_le_bytes());
            buf.extend_from_slice(&b[..n]);
            let _ = slots.write_all_at(&buf, (w * SLOT) as u64);
        }
    }

    /// Declares that the current thread is between cases.
    pub fn end(&self) {
        let w = self.worker();
        self.progress[w].1.store(false, Ordering::Relaxed);
    }

    /// Tells the watchdog that a long case makes progress.
    pub fn alive(&self) {
        let w = self.worker();
        self.progress[w].0.fetch_add(1, Ordering::Relaxed);
    }

    /// Reports a violating case.
    pub fn violation(&self, case: &str, message: &str) {
        let mut found = self.found.lock().unwrap();
        if found.len() < 64 {
            found.push((case.to_string(), message.to_string()));
        }
        if self.known.is_empty() {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn has_violation(&self) -> bool {
        !self.found.lock().unwrap().is_empty()
    }

    /// Whether the exploration should end early.
    pub fn stopped(&self) -> bool {
        if self.stop.load(Ordering::Relaxed) {
            return true;
        }
        if let Some(d) = self.deadline {
            if self.start.elapsed() > d {
                self.capped.store(true, Ordering::Relaxed);
                self.stop.store(true, Ordering::Relaxed);
                return true;
            }
        }
        false
    }

    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// Marks a part of the space that was not completed.
    pub fn cap(&self, what: &str) {
        self.capped.store(true, Ordering::Relaxed);
        self.note("capped", what);
    }

    pub fn add(&self, counter: &str, n: u64) {
        *self.counters.lock().unwrap().entry(counter.to_string()).or_insert(0) += n;
    }

    /// The value of a counter.
    pub fn get(&self, counter: &str) -> u64 {
        self.counters.lock().unwrap().get(counter).copied().unwrap_or(0)
    }

    pub fn max(&self, counter: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(counter.to_string()).or_insert(0);
        *e = (*e).max(n);
    }

    pub fn note(&self, key: &str, text: &str) {
        let mut n = self.notes.lock().unwrap();
        let e = n.entry(key.to_string()).or_default();
        if !e.is_empty() {
            e.push_str("; ");
        }
        e.push_str(text);
    }

    pub fn sample(&self, text: String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 24 {
            s.push(text);
        }
    }

    /// Runs `f(item index)` for all items on all workers.
    pub fn parallel(&self, items: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.workers.min(items.max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items || self.stopped() {
                                break;
                            }
                            f(i);
                        }
                        self.end();
                    })
                    .unwrap();
            }
        });
    }
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn set_limit(bytes: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// Silences the panics of the current process.
fn quiet_panics() {
    if env("ENGINE_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|info| {
            // Panics of the harness itself must not be swallowed.
            let loc = info.location().map(|l| format!("{l}")).unwrap_or_default();
            LAST_PANIC.with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    crate::alloc::untagged(|| {
                        *p = format!("{} at {loc}", payload_text(info.payload()));
                    });
                }
            });
        }));
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Message and location of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn payload_text(p: &dyn std::any::Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".to_string()
    }
}

fn wait_timeout(child: &mut std::process::Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Entry point of every check binary.
pub fn main(check: &dyn Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(env("VERIF_ROOT").unwrap_or_else(|| "/verif".into()));
    let dir = root.join("work").join(check.id());
    fs::create_dir_all(dir.join("replays")).ok();

    if args.len() > 2 && args[1] == "--replay" {
        // mc --replay FILE: run one case alone.
        quiet_panics();
        let mut text = String::new();
        File::open(&args[2]).and_then(|mut f| f.read_to_string(&mut text)).expect("cannot read replay file");
        let case = text.lines().find_map(|l| l.strip_prefix("case: ")).unwrap_or(text.trim()).to_string();
        set_limit(if check.address_space() == 26 << 30 { 12 << 30 } else { check.address_space() });
        if env("ENGINE_VERBOSE").is_some() {
            println!("{}", check.explain(&case));
        }
        let r = run_big_stack(|| check.replay(&case));
        match r {
            Ok(()) => {
                println!("replay: no violation");
                std::process::exit(0)
            }
            Err(m) => {
                println!("replay: {m}");
                std::process::exit(EXIT_VIOLATION)
            }
        }
    }

    if env("ENGINE_CHILD").is_some() {
        child(check, &dir, &root)
    } else {
        supervise(check, &dir, &root)
    }
}

fn run_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or_else(|_| {
                eprintln!("harness panicked: {}", "see above");
                std::process::exit(EXIT_ERROR)
            })
    })
}

fn write_replay(dir: &Path, check: &dyn Check, case: &str, message: &str) -> PathBuf {
    let mut n = 0;
    let path = loop {
        let p = dir.join("replays").join(format!("{}-{n}.replay", check.id()));
        if !p.exists() {
            break p;
        }
        n += 1;
    };
    let body = format!(
        "property: {}\nmessage: {}\ncase: {case}\n\n{}\n",
        check.id(),
        message.replace('\n', " | "),
        check.explain(case)
    );
    let _ = fs::write(&path, body);
    path
}

fn supervise(check: &dyn Check, dir: &Path, root: &Path) -> ! {
    let exe = std::env::current_exe().expect("current_exe");
    let _ = fs::remove_file(dir.join("slots"));
    if let Ok(rd) = fs::read_dir(dir.join("replays")) {
        for e in rd.flatten() {
            let _ = fs::remove_file(e.path());
        }
    }
    let start = Instant::now();
    let mut c = Command::new(&exe).args(std::env::args().skip(1)).env("ENGINE_CHILD", "1").spawn().expect("spawn");
    let status = c.wait().expect("wait");
    if let Some(code) = status.code() {
        if code != EXIT_HANG {
            std::process::exit(code);
        }
    }
    // The exploration died or hung: find out which case does it.
    let what = match status.signal() {
        Some(s) => format!("killed by signal {s}"),
        None => "hung".to_string(),
    };
    eprintln!("[{}] exploration {what}; confirming", check.id());
    let mut cases = Vec::new();
    if let Ok(slots) = fs::read(dir.join("slots")) {
        for s in slots.chunks(SLOT) {
            if s.len() < 4 {
                continue;
            }
            let n = u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize;
            if n > 0 && n + 4 <= s.len() {
                cases.push(String::from_utf8_lossy(&s[4..4 + n]).into_owned());
            }
        }
    }
    for case in cases {
        let tmp = dir.join("confirm.case");
        if fs::write(&tmp, format!("case: {case}\n")).is_err() {
            continue;
        }
        let mut c = Command::new(&exe).arg("--replay").arg(&tmp).spawn().expect("spawn");
        let msg = match wait_timeout(&mut c, Duration::from_secs(90)) {
            None => "the operation does not terminate".to_string(),
            Some(s) => match (s.signal(), s.code()) {
                (Some(sig), _) => format!("the process died on signal {sig} (memory corruption or abort)"),
                (None, Some(1)) => "violation confirmed by replay".to_string(),
                _ => continue,
            },
        };
        let path = write_replay(dir, check, &case, &msg);
        println!("{}\n{}", check.explain(&case), msg);
        println!("VIOLATION property={} replay={}", check.id(), path.display());
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"explanation\":{},\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":\"aborted by a crash\",\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}]}},\"wall_s\":{:.2},\"violations\":1}}\n",
            json_str(check.id()),
            json_str(if tier() == Tier::Quick { "quick" } else { "thorough" }),
            seed(),
            json_str(check.level()),
            json_str(&format!("the exploration was {what} by the case in samples")),
            json_str(&check.explain(&case)),
            start.elapsed().as_secs_f64()
        );
        let _ = fs::create_dir_all(root.join("evidence"));
        let _ = fs::write(root.join("evidence").join(format!("{}.json", check.id())), ev);
        std::process::exit(EXIT_VIOLATION);
    }
    eprintln!("[{}] error: exploration {what}, not reproduced by any recorded case", check.id());
    std::process::exit(EXIT_ERROR)
}

fn tier() -> Tier {
    let by_arg = std::env::args().any(|a| a == "--thorough");
    if by_arg || env("VERIF_TIER").as_deref() == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn seed() -> u64 {
    env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn child(check: &dyn Check, dir: &Path, root: &Path) -> ! {
    quiet_panics();
    set_limit(check.address_space());
    unsafe {
        // Die with the supervisor.
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let slots = File::options().create(true).truncate(true).write(true).read(true).open(dir.join("slots")).ok();
    if let Some(s) = &slots {
        let _ = s.set_len((SLOT * MAX_WORKERS) as u64);
    }
    let known = fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("finding: property={} match=", check.id()))?;
            let (m, d) = rest.split_once(" :: ")?;
            Some((m.trim().to_string(), d.trim().to_string()))
        })
        .collect::<Vec<_>>();
    let tier = tier();
    let deadline = env("ENGINE_DEADLINE_S").and_then(|s| s.parse().ok()).map(Duration::from_secs).or(Some(match tier {
        Tier::Quick => Duration::from_secs(400),
        Tier::Thorough => Duration::from_secs(5400),
    }));
    let ctx = Ctx {
        tier,
        seed: seed(),
        workers: env("ENGINE_WORKERS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map_or(4, |n| n.get()).min(MAX_WORKERS - 1)
        }),
        dir: dir.to_path_buf(),
        slots,
        progress: (0..MAX_WORKERS).map(|_| (AtomicU64::new(0), AtomicBool::new(false))).collect(),
        start: Instant::now(),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        counters: Mutex::default(),
        notes: Mutex::default(),
        samples: Mutex::default(),
        found: Mutex::default(),
        known,
        next_worker: AtomicUsize::new(0),
        deadline,
    };
    let done = AtomicBool::new(false);
    let ok = std::thread::scope(|s| {
        // Watchdog.
        s.spawn(|| {
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); MAX_WORKERS];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for (w, p) in ctx.progress.iter().enumerate() {
                    let n = p.0.load(Ordering::Relaxed);
                    if n != last[w].0 || !p.1.load(Ordering::Relaxed) {
                        last[w] = (n, Instant::now());
                    } else if last[w].1.elapsed() > Duration::from_secs(60) {
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || check.explore(&ctx))
            .unwrap()
            .join();
        done.store(true, Ordering::Relaxed);
        r.is_ok()
    });
    if !ok {
        eprintln!("[{}] error: the harness panicked: {}", check.id(), last_panic());
        std::process::exit(EXIT_ERROR);
    }
    finish(check, &ctx, root)
}

fn finish(check: &dyn Check, ctx: &Ctx, root: &Path) -> ! {
    let found = ctx.found.lock().unwrap().clone();
    let mut real = Vec::new();
    let mut known_seen: Vec<String> = Vec::new();
    for (case, msg) in &found {
        match ctx.known.iter().find(|k| msg.contains(&k.0)) {
            Some(k) => {
                if !known_seen.contains(&k.1) {
                    known_seen.push(k.1.clone());
                }
            }
            None => real.push((case.clone(), msg.clone())),
        }
    }
    for k in &known_seen {
        println!("KNOWN-FINDING: property={} {k}", check.id());
    }
    // Shortest counterexample first, and only if it fails again, twice, in the same way.
    real.sort_by_key(|(c, _)| (c.len(), c.clone()));
    let mut code = 0;
    let mut confirmed = 0;
    for (case, msg) in &real {
        let tmp = ctx.dir.join("confirm.case");
        let _ = fs::write(&tmp, format!("case: {case}\n"));
        let exe = std::env::current_exe().expect("current_exe");
        let mut outs = Vec::new();
        for _ in 0..2 {
            let c = Command::new(&exe)
                .arg("--replay")
                .arg(&tmp)
                .env_remove("ENGINE_CHILD")
                .stdout(std::process::Stdio::piped())
                .spawn();
            let Ok(mut c) = c else { continue };
            let st = wait_timeout(&mut c, Duration::from_secs(200));
            let mut o = String::new();
            if let Some(mut so) = c.stdout.take() {
                let _ = so.read_to_string(&mut o);
            }
            outs.push((st.map(|s| (s.code(), s.signal())), o));
        }
        let fails = outs.len() == 2 && outs.iter().all(|o| o.0 != Some((Some(0), None)) && o.0 != Some((Some(2), None)));
        if !fails {
            eprintln!("[{}] error: not reproduced by replay: {msg}\n{}\n{outs:?}", check.id(), check.explain(case));
            if code == 0 {
                code = EXIT_ERROR;
            }
            continue;
        }
        confirmed += 1;
        code = EXIT_VIOLATION;
        let path = write_replay(&ctx.dir, check, case, msg);
        println!("{}\n=> {msg}", check.explain(case));
        println!("VIOLATION property={} replay={}", check.id(), path.display());
        break;
    }
    let counters = ctx.counters.lock().unwrap().clone();
    let notes = ctx.notes.lock().unwrap().clone();
    let samples = ctx.samples.lock().unwrap().clone();
    let capped = ctx.capped.load(Ordering::Relaxed);
    let mut cov = Vec::new();
    for (k, v) in &counters {
        cov.push(format!("    {}: {v}", json_str(k)));
    }
    for (k, v) in &notes {
        cov.push(format!("    {}: {}", json_str(k), json_str(v)));
    }
    cov.push(format!("    \"exhaustive\": {}", !capped && !ctx.has_violation()));
    cov.push(format!(
        "    \"samples\": [\n      {}\n    ]",
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n      ")
    ));
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(check.id()),
        json_str(if ctx.tier == Tier::Quick { "quick" } else { "thorough" }),
        ctx.seed,
        json_str(check.level()),
        cov.join(",\n"),
        check.assumptions().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        ctx.start.elapsed().as_secs_f64(),
        confirmed
    );
    let _ = fs::create_dir_all(root.join("evidence"));
    let path = root.join("evidence").join(format!("{}.json", check.id()));
    if fs::write(&path, ev).is_err() {
        eprintln!("[{}] error: cannot write {}", check.id(), path.display());
        std::process::exit(EXIT_ERROR);
    }
    println!(
        "[{}] {}{} in {:.1}s: {}",
        check.id(),
        if code == 0 { "held on everything explored" } else { "NOT OK" },
        if capped { " (capped)" } else { "" },
        ctx.start.elapsed().as_secs_f64(),
        counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
