mod book;
mod chain;
mod props;
mod rt;

use serde_json::{json, Value};
#[cfg(not(feature = "sym"))]
use std::io::Read;

/// One bounded scenario family of a property.
pub struct H {
    pub prop: &'static str,
    pub name: &'static str,
    /// runs in the quick tier as well
    pub quick: bool,
    pub groups: &'static [&'static str],
    pub f: fn(),
    /// what the scenario ranges over, in words
    pub bounds: &'static str,
    /// events at least one explored path must have reached
    pub witness: &'static [&'static str],
}

fn arg(name: &str, def: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == name)
        .and_then(|i| a.get(i + 1))
        .cloned()
        .unwrap_or_else(|| def.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "list" => {
            let v: Vec<Value> = props::all()
                .iter()
                .map(|h| json!({"property": h.prop, "harness": h.name, "quick": h.quick, "bounds": h.bounds}))
                .collect();
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
        }
        "run" => run(),
        "replay" => replay(),
        _ => {
            eprintln!("usage: run PROP [--tier quick|thorough] [--budget S] [--out F] | replay < traces | list");
            std::process::exit(64)
        }
    }
}

#[cfg(feature = "sym")]
fn trace_json(h: &H, t: &symrt::Trace) -> Value {
    let vars: serde_json::Map<String, Value> =
        t.vars.iter().map(|(k, v)| (k.clone(), Value::String(v.to_string()))).collect();
    json!({"property": h.prop, "harness": h.name, "label": t.label, "vars": vars, "choices": t.choices, "notes": t.notes,
           "obs": t.obs.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
}

#[cfg(feature = "sym")]
fn run() {
    use std::time::{Duration, Instant};
    let prop = std::env::args().nth(2).unwrap();
    let tier = arg("--tier", "quick");
    let budget: f64 = arg("--budget", "600").parse().unwrap();
    let only = arg("--only", "");
    let threads: usize = arg("--threads", "0").parse().unwrap();
    let maxv: usize = arg("--max-violations", "3").parse().unwrap();
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let t0 = Instant::now();
    let hs: Vec<H> = props::all()
        .into_iter()
        .filter(|h| h.prop == prop && (h.quick || tier == "thorough") && (only.is_empty() || only == h.name))
        .collect();
    let n = hs.len();
    let mut out = vec![];
    for (k, h) in hs.iter().enumerate() {
        let left = (budget - t0.elapsed().as_secs_f64()).max(1.0);
        let mut cfg = symrt::Config::default();
        // an even share of what is left, so that no scenario starves the ones after it
        let share = if tier == "thorough" { left / (n - k) as f64 } else { left };
        cfg.budget = Duration::from_secs_f64(share);
        cfg.seed = seed;
        cfg.max_violations = maxv;
        if threads > 0 {
            cfg.threads = threads;
        }
        let g = h.groups;
        let f = h.f;
        let body = move || {
            book::enable(g);
            chain::pair("base", "quote");
            f()
        };
        let r = symrt::explore(cfg, &body);
        let s = &r.stats;
        eprintln!(
            "{} {}: paths {} infeasible {} queries {} sat {} unsat {} unknown, checks {}, solver {:.1}s wall {:.1}s complete {} left {} violations {} errors {}",
            h.prop, h.name, s.paths, s.infeasible, s.q_sat, s.q_unsat, s.q_unknown, s.checks, s.solver_s, r.wall_s, r.complete, r.left, r.violations.len(), r.errors.len()
        );
        for e in r.errors.iter().take(3) {
            eprintln!("   error: {e}");
        }
        for e in r.pins.iter().take(3) {
            eprintln!("   only single values: {e}");
        }
        for v in r.violations.iter().take(3) {
            eprintln!("   violation: {} {:?} {:?}", v.label, v.vars.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>(), v.notes);
        }
        let missing: Vec<&str> = h.witness.iter().copied().filter(|w| !s.reached.contains_key(*w)).collect();
        out.push(json!({
            "property": h.prop, "harness": h.name, "bounds": h.bounds,
            "paths": s.paths, "infeasible": s.infeasible, "forks": s.forks, "choices": s.choices,
            "decided_interval": s.decided_interval,
            "queries_sat": s.q_sat, "queries_unsat": s.q_unsat, "queries_unknown": s.q_unknown, "queries_fallback": s.q_fallback,
            "solver_s": s.solver_s, "slowest_query_s": s.slowest_s, "wall_s": r.wall_s,
            "checks": s.checks, "checks_by_solver": s.checks_solver_unsat, "labels": s.labels, "reached": s.reached,
            "counters": s.counters, "missing_witnesses": missing,
            "complete": r.complete, "paths_left": r.left, "errors": r.errors, "pins": r.pins,
            "error_traces": r.error_traces.iter().map(|t| trace_json(h, t)).collect::<Vec<_>>(),
            "violations": r.violations.iter().map(|t| trace_json(h, t)).collect::<Vec<_>>(),
            "samples": r.samples.iter().map(|t| trace_json(h, t)).collect::<Vec<_>>(),
        }));
    }
    let v = Value::Array(out);
    let o = arg("--out", "-");
    if o == "-" {
        println!("{}", serde_json::to_string_pretty(&v).unwrap());
    } else {
        std::fs::write(o, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}
#[cfg(feature = "sym")]
fn replay() {
    panic!("replay runs in the concrete build")
}

#[cfg(not(feature = "sym"))]
fn run() {
    panic!("run needs the symbolic build")
}
/// Reads an array of traces and re-runs each against the genuine contract build.
#[cfg(not(feature = "sym"))]
fn replay() {
    use rt::{End, Run, RUN};
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let ts: Vec<Value> = serde_json::from_str(&s).unwrap();
    let hs = props::all();
    let mut out = vec![];
    for t in ts {
        let name = t["harness"].as_str().unwrap();
        let prop = t["property"].as_str();
        let h = match hs.iter().find(|h| h.name == name && prop.map_or(true, |p| p == h.prop)) {
            Some(h) => h,
            None => {
                out.push(json!({"outcome": "diverged", "why": "unknown harness"}));
                continue;
            }
        };
        let mut r = Run::default();
        for c in t["choices"].as_array().unwrap() {
            r.choices.push(c.as_u64().unwrap() as u32);
        }
        for (k, v) in t["vars"].as_object().unwrap() {
            let z = rt::Z::parse(v.as_str().unwrap()).unwrap();
            r.vars.insert(k.clone(), z.0);
        }
        RUN.with(|x| *x.borrow_mut() = r);
        let (g, f) = (h.groups, h.f);
        let res = std::panic::catch_unwind(move || {
            book::enable(g);
            chain::pair("base", "quote");
            f()
        });
        let (outcome, why) = match res {
            Ok(()) => ("ok", String::new()),
            Err(p) => match p.downcast_ref::<End>() {
                Some(End::Infeasible) => ("infeasible", String::new()),
                Some(End::Violated(l)) => ("violated", l.clone()),
                Some(End::Diverged(w)) => ("diverged", w.clone()),
                None => (
                    "panic",
                    p.downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default(),
                ),
            },
        };
        let (obs, notes) = RUN.with(|x| {
            let x = x.borrow();
            (x.obs.clone(), x.notes.clone())
        });
        out.push(json!({"outcome": outcome, "why": why, "notes": notes,
            "obs": obs.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()}));
    }
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
}
