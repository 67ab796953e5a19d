//! Pruning without dropout against a sequential reference, under many schedules.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, Tok, Trie};
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;

pub struct C08;

/// A vocabulary to prune with samples it matters for.
pub fn gen_prune(r: &mut Rng, thorough: bool) -> Value {
    let pool = pool(r);
    let k = if r.chance(15) { 60 } else { 14 };
    let mut sc = command(r, "prune", &pool, k);
    let n = r.range(5, if thorough { 150 } else { 70 });
    sc["vocab"] = toks_json(&vocab(r, &pool, n, false));
    if r.chance(25) {
        let base: Vec<String> = (0..r.range(1, 4)).map(|_| text(r, &pool, 12)).filter(|s| !s.is_empty()).collect();
        if !base.is_empty() {
            let k = r.range(20, 120);
            sc["sources"] = json!([{ "samples": (0..k).map(|_| r.pick(&base).clone()).collect::<Vec<_>>() }]);
        }
    }
    if r.chance(2) {
        sc["sources"] = bulk(r, &pool, false, 20_000);
    }
    sc
}
pub fn compare(want: &[Tok], got: &[Tok], tol: f64, what: &str) -> Result<(), Verdict> {
    let w: HashMap<&[u8], &Tok> = want.iter().map(|t| (t.v.as_slice(), t)).collect();
    let g: HashMap<&[u8], &Tok> = got.iter().map(|t| (t.v.as_slice(), t)).collect();
    ensure!(g.len() == got.len(), "duplicate", "{what}: {} tokens, {} different ones", got.len(), g.len());
    for t in want {
        match g.get(t.v.as_slice()) {
            None => return Err(viol("vocabulary", format!("{what}: {:?} is missing ({} tokens, expected {})", String::from_utf8_lossy(&t.v), got.len(), want.len()))),
            Some(x) => {
                ensure!(x.keep == t.keep, "protection", "{what}: {:?} has keep={}", String::from_utf8_lossy(&t.v), x.keep);
                ensure!(
                    (x.s - t.s).abs() <= tol * (1.0 + t.s.abs()),
                    "score",
                    "{what}: {:?} has score {}, expected {}",
                    String::from_utf8_lossy(&t.v),
                    x.s,
                    t.s
                );
            }
        }
    }
    for t in got {
        ensure!(w.contains_key(t.v.as_slice()), "vocabulary", "{what}: {:?} should have been pruned ({} tokens, expected {})", String::from_utf8_lossy(&t.v), got.len(), want.len());
    }
    Ok(())
}

/// A sample may be cut into pieces: each cut can move a few expected uses.
fn compare_long(v: &[Tok], samples: &[&str], got: &[Tok]) -> Result<(), Verdict> {
    let trie = Trie::new(v);
    let mut e = vec![0.0; v.len()];
    for s in samples {
        expect(v, &trie, s.as_bytes(), &mut e);
    }
    let cuts = samples.iter().map(|s| s.len() / 50_000).sum::<usize>() as f64;
    ensure!(got.len() == v.len(), "vocabulary", "{} tokens, expected {}", got.len(), v.len());
    let d = digamma(e.iter().map(|f| f.max(0.5)).sum());
    for t in got {
        let Some(id) = trie.get(&t.v) else { return Err(viol("vocabulary", "an invented token")) };
        let f = e[id as usize];
        let (lo, hi) = (digamma((f - 6.0 * cuts).max(0.5)) - d, digamma((f + 6.0 * cuts).max(0.5)) - d);
        ensure!(t.s > lo - 2e-3 && t.s < hi + 2e-3, "score", "{:?} has score {}, expected {lo} to {hi}", String::from_utf8_lossy(&t.v), t.s);
    }
    Ok(())
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let mut sc = gen_prune(r, thorough);
        let mut o = args(&["--dropout", "0"]);
        let n = sc["vocab"].as_array().unwrap().len();
        let kind = r.below(10);
        let mut long = false;
        if kind < 4 {
            // everything protected: the scores are the expectations of each iteration
            for t in sc["vocab"].as_array_mut().unwrap() {
                t[2] = json!(true);
            }
            o.extend(args(&["-v", &(n - 1).to_string(), "--shrink-factor", "0.5"]));
            long = kind == 0 && r.chance(25);
        } else if kind < 6 {
            // nothing reaches the size, one iteration
            o.extend(args(&["-v", &r.range(n.saturating_sub(15), n - 1).to_string(), "--shrink-factor", "0.5"]));
        } else {
            o.extend(args(&["-v", &r.range(250, n).to_string(), "--shrink-factor", r.pick(&["0.5", "0.8", "0.95", "0.99", "0.01"])]));
        }
        if !long {
            o.extend(args(&["--em-subiters", r.pick(&["1", "1", "2", "3"])]));
        }
        if long {
            // more than one piece of what the lattice takes at once
            let pool = samples_of(&sc["sources"][0]);
            let mut s = String::new();
            let unit: String = pool.iter().take(6).cloned().collect::<Vec<_>>().join(" ");
            // what follows later need not be like what comes first
            let parts = r.range(1, 3);
            for k in 0..parts {
                let u = if k == 0 { &unit } else { r.pick(&pool) };
                let len = s.len() + if k == 0 { r.range(85_000, 110_000) } else { r.range(8_000, 60_000) };
                while s.len() < len {
                    s += u;
                    s.push('.');
                }
            }
            sc["procs"] = json!([]);
            sc["sources"] = json!([{ "samples": [s, unit] }]);
            sc["!long"] = json!(true);
            o.extend(args(&["--em-subiters", "1"]));
        }
        sc["!opts"] = json!(o);
        let k = r.range(1, 3);
        sc["sims"] = json!((0..k).map(|_| Value::Object(sched(r))).collect::<Vec<_>>());
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let src = loaded(&sc["sources"], &procs);
        let samples: Vec<&str> = src.iter().flatten().map(|s| s.as_str()).collect();
        let long = sc["!long"] == true;
        if samples.is_empty() {
            return Ok(Verdict::Skip("no samples"));
        }
        let v = toks_of(&sc["vocab"]);
        let o = PruneOpts { size: opt_n(sc, &["-v"], 0), shrink: opt_f(sc, &["--shrink-factor"], 0.8), subiters: opt_n(sc, &["--em-subiters"], 1) };
        let want = prune(&v, &samples, &o);
        match &want {
            Ok(_) => {}
            Err(Stop::Ambiguous(w)) => c.probe(w),
            Err(Stop::Fails) => return Ok(Verdict::Skip("pruning has to fail")),
        }
        let mut first: Option<(Vec<Tok>, usize)> = None;
        for (k, s) in sc["sims"].as_array().map(|v| v.as_slice()).unwrap_or(&[]).iter().enumerate() {
            c.wipe();
            let a = prepare(c, sc, "out.json");
            let run = c.cli(&cfg_of(s), &a, "info")?;
            if let Some(e) = bad_end(&run) {
                return Err(viol("hang", e));
            }
            if !run.ok() {
                if run.panic_line().contains("f64::NaN") && want.is_err() {
                    return Ok(Verdict::Skip("degenerate loss"));
                }
                return Err(viol("failed", format!("prune ends with {}: {}", run.status(), clip(&run.panic_line(), 200))));
            }
            let (f, _) = parse_file(&c.get("out.json").unwrap_or_default()).map_err(|e| viol("output", e))?;
            ensure!(f.procs == procs && f.special == strs(&sc["special"]), "output", "special tokens {:?}, processors {:?}", f.special, f.procs);
            match &want {
                Ok(_) if long => compare_long(&v, &samples, &f.vocab)?,
                Ok(w) => compare(w, &f.vocab, 1e-7, "against the sequential reference")?,
                // what still holds when a tie or rounding decides
                Err(_) => {
                    ensure!(f.vocab.len() <= v.len(), "vocabulary", "{} tokens from {}", f.vocab.len(), v.len());
                    if let Some((w, _)) = &first {
                        if w.len() == f.vocab.len() && w.iter().all(|t| f.vocab.iter().any(|x| x.v == t.v)) {
                            c.probe("same vocabulary although ambiguous");
                        }
                    }
                }
            }
            if first.is_none() {
                first = Some((f.vocab, k));
            }
        }
        if want.is_err() {
            return Ok(Verdict::Skip("ambiguous"));
        }
        c.probe(if long { "long sample" } else { "equals the sequential reference" });
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence (which includes the order the samples were shuffled into)"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
