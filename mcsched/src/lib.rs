//! Checks under a controlled scheduler.
use std::fmt::Write;

pub mod deferred;

pub fn show_path(p: &[usize]) -> String {
    let mut s = String::new();
    for x in p {
        let _ = write!(s, "{}{x}", if s.is_empty() { "" } else { "." });
    }
    s
}

pub fn read_path(s: &str) -> Vec<usize> {
    s.split('.').filter_map(|x| x.parse().ok()).collect()
}

/// Adds the counters of an exploration.
pub fn account(ctx: &engine::runner::Ctx, o: &sched::Outcome) {
    ctx.add("evaluations", o.executions);
    ctx.add("executions", o.executions);
    ctx.add("states", o.states);
    ctx.add("transitions", o.transitions);
    ctx.add("executions_with_a_fair_end", o.fair);
    ctx.max("max_threads", o.max_threads);
    ctx.max("max_steps", o.max_steps);
    if o.fair > 0 {
        ctx.cap("executions of more than 2000 steps were continued with one schedule only");
    }
}
