//! Progress reporting: what the monitors say against the work that was done,
//! when they end, and that they never matter.
use super::c08::{compare, gen_prune};
use super::c10::{gen_merge, judge_exact};
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, Tok};
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

pub struct C16;

const SECOND: u64 = 1_000_000_000;
/// steps the worker may take between its last sample and the end of the phase being logged
const TAIL: u64 = 300;

#[derive(Debug)]
enum Line {
    Start(String, u64),
    Progress(String, f64),
    Finished(String),
    Other,
}
fn parse(l: &str) -> Line {
    // [time LEVEL module] message
    let m = match l.strip_prefix('[').and_then(|x| x.split_once("] ")) {
        Some((_, m)) => m,
        None => return Line::Other,
    };
    let f: Vec<&str> = m.split(" | ").collect();
    if f.len() < 3 {
        return Line::Other;
    }
    if let Some(d) = f[0].strip_prefix("FINISHED ") {
        return Line::Finished(d.into());
    }
    if let Some(p) = f[1].trim().strip_suffix('%') {
        return Line::Progress(f[0].into(), p.trim().parse().unwrap_or(f64::NAN));
    }
    if let Some(n) = f[1].strip_suffix(" samples") {
        return Line::Start(f[0].into(), n.parse().unwrap_or(0));
    }
    Line::Other
}
struct Rec {
    line: Line,
    now: u64,
    thread: u64,
    taken: Vec<u64>,
}
struct Phase {
    desc: String,
    start: usize,
    end: Option<usize>,
}
fn records(run: &Run) -> Option<Vec<Rec>> {
    if run.log.len() >= 8000 {
        return None;
    }
    Some(
        run.log
            .iter()
            .map(|l| {
                let t = &run.stderr[l.at.min(run.stderr.len())..];
                let t = &t[..t.iter().position(|b| *b == b'\n').unwrap_or(t.len())];
                Rec { line: parse(&String::from_utf8_lossy(t)), now: l.now, thread: l.thread, taken: l.taken.clone() }
            })
            .collect(),
    )
}
fn phases(recs: &[Rec]) -> Vec<Phase> {
    let mut v: Vec<Phase> = vec![];
    for (i, r) in recs.iter().enumerate() {
        if let Line::Start(d, _) = &r.line {
            let end = recs.iter().enumerate().skip(i + 1).find(|(_, x)| x.thread == r.thread).map(|(k, _)| k);
            v.push(Phase { desc: d.clone(), start: i, end });
        }
    }
    v
}
/// What each monitor says, on its own.
fn consistent(recs: &[Rec], ph: &[Phase], c: &mut Ctx) -> Result<(), Verdict> {
    let mut last: BTreeMap<(u64, &str), (f64, bool)> = BTreeMap::new();
    let mut fin: HashMap<&str, usize> = HashMap::new();
    for (i, r) in recs.iter().enumerate() {
        match &r.line {
            Line::Progress(d, p) => {
                ensure!(*p <= 100.0 && *p >= 0.0, "percent", "{d}: {p}% reported");
                ensure!(ph.iter().any(|x| x.desc == *d && x.start < i), "unknown", "progress of {d:?}, which has not started");
                let fresh = (0.0, false);
                let ns: Vec<u64> = ph.iter().filter(|x| x.desc == *d && x.start < i).filter_map(|x| if let Line::Start(_, n) = recs[x.start].line { Some(n) } else { None }).collect();
                if ns.iter().all(|n| *n == ns[0] && *n > 0 && *n < 90) {
                    // the next whole number of samples, which the claim may be rounded down from
                    let n = ns[0] as f64;
                    let k = ((p - 0.006) / 100.0 * n).ceil();
                    ensure!(k / n * 100.0 - p < 1.0, "overclaim", "{d}: {p}% of {n} samples reported, which is more than {} and not yet {k}", k - 1.0);
                    c.probe("claims compared with whole numbers of samples");
                }
                // a thread may watch several phases of that name, one after the other
                let (was, over) = *last.get(&(r.thread, d.as_str())).unwrap_or(&fresh);
                if !over {
                    ensure!(*p >= was, "backwards", "{d}: {p}% reported after {was}%");
                }
                last.insert((r.thread, d.as_str()), (*p, false));
                c.probe("progress reports");
            }
            Line::Finished(d) => {
                let n = fin.entry(d.as_str()).or_default();
                *n += 1;
                let started = ph.iter().filter(|x| x.desc == *d && x.start < i).count();
                ensure!(*n <= started, "finished", "{d:?} finished {n} times, started {started} times");
                last.insert((r.thread, d.as_str()), (0.0, true));
            }
            _ => {}
        }
    }
    Ok(())
}
/// With one worker and equal samples: the share of the work done bounds the share claimed.
fn truthful(recs: &[Rec], ph: &[Phase], c: &mut Ctx) -> Result<(), Verdict> {
    for p in ph {
        let Some(end) = p.end else { continue };
        if ph.iter().filter(|x| x.desc == p.desc).count() > 1 {
            continue;
        }
        let own = recs[p.start].thread as usize;
        // the worker is the thread that did most of the work
        let Some(w) = (0..8).filter(|t| *t != own).max_by_key(|t| recs[end].taken[*t] - recs[p.start].taken[*t]) else { continue };
        let w0 = recs[p.start].taken[w];
        let total = recs[end].taken[w] - w0;
        if std::env::var("C16").is_ok() {
            eprintln!("{} worker {w}: {total} steps in {} ms", p.desc, (recs[end].now - recs[p.start].now) / 1000000);
        }
        if total < 12 * TAIL {
            continue;
        }
        for r in &recs[p.start..] {
            let claim = match &r.line {
                Line::Progress(d, x) if *d == p.desc => *x / 100.0,
                Line::Finished(d) if *d == p.desc => 1.0,
                _ => continue,
            };
            let done = (r.taken[w] - w0 + TAIL) as f64 / total as f64;
            if std::env::var("C16").is_ok() {
                eprintln!("  claims {claim:.3} done {done:.3}");
            }
            ensure!(claim <= done + 0.03, "overclaim", "{}: {:.1}% claimed when at most {:.1}% of the work was done", p.desc, claim * 100.0, done * 100.0);
            c.probe("claims measured against the work");
        }
    }
    Ok(())
}
/// Each monitor says it is done within two seconds (and what the scheduler may take) of the end of its phase.
fn prompt(recs: &[Rec], ph: &[Phase], tick: u64, steps: u64, now: u64, c: &mut Ctx) -> Result<(), Verdict> {
    let slack = steps * tick;
    let mut names: Vec<&str> = ph.iter().map(|p| p.desc.as_str()).collect();
    names.sort();
    names.dedup();
    for d in names {
        let ends: Vec<u64> = ph.iter().filter(|p| p.desc == d).filter_map(|p| p.end.map(|e| recs[e].now)).collect();
        let fins: Vec<u64> = recs.iter().filter(|r| matches!(&r.line, Line::Finished(x) if x == d)).map(|r| r.now).collect();
        for (k, e) in ends.iter().enumerate() {
            let due = e + 2 * SECOND + slack;
            if due >= now {
                continue;
            }
            // phases of one name end in order; so many monitors have to have ended by then
            let n = fins.iter().filter(|f| **f <= due).count();
            ensure!(n > k, "late", "{d:?} ended {:.2} s before the process did; its monitor had not after {:.2} s", (now - e) as f64 / 1e9, (due - e) as f64 / 1e9);
            c.probe("monitors that had to end");
        }
    }
    Ok(())
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let kind = *r.pick(&["truth", "deadline", "interference", "interference"]);
        let prune = r.chance(50);
        let mut sc = if prune { gen_prune(r, thorough) } else { gen_merge(r, thorough) };
        sc["!kind"] = json!(kind);
        let n = sc["vocab"].as_array().unwrap().len();
        if prune {
            let mut o = args(&["--dropout", "0", "--em-subiters", if kind == "truth" { "1" } else { r.pick(&["1", "2", "3"]) }]);
            o.extend(args(&["-v", &r.range(n.saturating_sub(25), n - 1).to_string(), "--shrink-factor", r.pick(&["0.5", "0.9", "0.99"])]));
            sc["!opts"] = json!(o);
        }
        if kind != "interference" {
            let pool = pool(r);
            let unit = text(r, &pool, 3) + r.pick(&pool);
            if kind == "truth" {
                let k = r.range(1500, 3000);
                sc["sources"] = json!([{ "samples": vec![unit; k] }]);
            }
        }
        if kind == "deadline" && !prune {
            let mut o = strs(&sc["!opts"]);
            for i in 0..o.len() {
                if o[i] == "--step" {
                    o[i + 1] = "1".into();
                }
                if o[i] == "--num-merges" {
                    o[i + 1] = r.range(10, 40).to_string();
                }
            }
            sc["!opts"] = json!(o);
            sc["allow"] = json!("(?s)^.*$");
        }
        let k = if kind == "interference" { 2 } else { 1 };
        sc["sims"] = json!((0..k)
            .map(|_| {
                let mut s = sched(r);
                if r.chance(40) {
                    wall_clock(r, &mut s);
                }
                match kind {
                    "interference" => {
                        s.insert("tick".into(), json!(*r.pick(&[1_000u64, 1_000_000, 30_000_000, 400_000_000])));
                        if r.chance(60) {
                            s.insert("jump".into(), json!(r.range(1, 20_000)));
                            s.insert("jumpns".into(), json!(SECOND / 2 << r.below(33)));
                        }
                        if r.chance(50) {
                            s.insert("stall".into(), json!(*r.pick(&[20_000u64, 500_000])));
                        }
                    }
                    _ => {
                        for k in ["stall", "spur", "fintr", "pctk", "pctd"] {
                            s.remove(k);
                        }
                        s.insert("mode".into(), json!(1));
                        s.insert("mean".into(), json!(*r.pick(&[1u64, 3, 10])));
                        if kind == "truth" {
                            s.insert("threads".into(), json!(1));
                            s.insert("tick".into(), json!(*r.pick(&[3_000_000u64, 10_000_000, 30_000_000])));
                        } else {
                            s.insert("tick".into(), json!(*r.pick(&[100_000u64, 200_000, 400_000])));
                        }
                    }
                }
                Value::Object(s)
            })
            .collect::<Vec<_>>());
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let kind = sc["!kind"].as_str().unwrap_or("");
        let procs = strs(&sc["procs"]);
        let src = loaded(&sc["sources"], &procs);
        let samples: Vec<&str> = src.iter().flatten().map(|s| s.as_str()).collect();
        let v = tokfile(sc).vocab;
        let merge = sc["cmd"] == "merge";
        if samples.is_empty() {
            return Ok(Verdict::Skip("no samples"));
        }
        let o = PruneOpts { size: opt_n(sc, &["-v"], 0), shrink: opt_f(sc, &["--shrink-factor"], 0.8), subiters: opt_n(sc, &["--em-subiters"], 1) };
        let want = if merge { Err(Stop::Ambiguous("merge")) } else { prune(&v, &samples, &o) };
        if matches!(want, Err(Stop::Fails)) {
            return Ok(Verdict::Skip("pruning has to fail"));
        }
        for s in sc["sims"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
            c.wipe();
            let a = prepare(c, sc, "out.json");
            let cfg = cfg_of(s);
            let run = c.cli(&cfg, &a, "debug")?;
            if let Some(e) = bad_end(&run) {
                return Err(viol("hang", e));
            }
            if !run.ok() && !merge && want.is_err() && run.panic_line().contains("f64::NaN") {
                return Ok(Verdict::Skip("degenerate loss"));
            }
            ensure!(run.ok(), "failed", "{} ends with {}: {}", sc["cmd"], run.status(), clip(&run.panic_line(), 200));
            ensure!(!run.err_text().contains("panicked at"), "panic", "a thread panicked: {}", clip(&run.panic_line(), 200));
            let Some(recs) = records(&run) else { return Ok(Verdict::Skip("log too long")) };
            let ph = phases(&recs);
            consistent(&recs, &ph, c)?;
            if kind == "truth" && samples.iter().all(|s| *s == samples[0]) {
                truthful(&recs, &ph, c)?;
            }
            if kind == "deadline" {
                prompt(&recs, &ph, crate::sim::cfg_u(&cfg, "tick", 0), 6000, run.now, c)?;
            }
            let (f, _) = parse_file(&c.get("out.json").unwrap_or_default()).map_err(|e| viol("output", e))?;
            result(sc, &v, &f.vocab, &samples, &want, c)?;
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence (which includes the order the samples were shuffled into)"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs; work is measured in simulated steps of the worker thread")
    }
}
fn result(sc: &Value, v: &[Tok], got: &[Tok], samples: &[&str], want: &Result<Vec<Tok>, Stop>, c: &mut Ctx) -> Result<(), Verdict> {
    if sc["cmd"] == "merge" {
        if judge_exact(sc, v, got, samples, c)? {
            c.probe("result as without a monitor");
        }
    } else if let Ok(w) = want {
        compare(w, got, 1e-7, "against the sequential reference")?;
        c.probe("result as without a monitor");
    }
    Ok(())
}
