//! Generation with probability 1: the vocabulary sequential counting gives.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, Tok};
use crate::util::*;
use serde_json::json;
use std::collections::{HashMap, HashSet};

pub struct C06;

/// Options and data of a generation; shared with C07.
pub fn gen_generate(r: &mut Rng, p: &str, thorough: bool) -> Value {
    let pool = pool(r);
    let size = match r.below(10) {
        0 => 12 * 20,
        1 | 2 => 80,
        _ => 20,
    };
    let mut sc = command(r, "generate", &pool, size);
    if r.chance(25) {
        // many copies of few samples: close and equal counts, many samples per chunk
        let base: Vec<String> = (0..r.range(1, 4)).map(|_| text(r, &pool, 6)).filter(|s| !s.is_empty()).collect();
        if !base.is_empty() {
            let n = r.range(10, if thorough { 600 } else { 200 });
            let s: Vec<String> = (0..n).map(|_| r.pick(&base).clone()).collect();
            sc["sources"] = json!([{ "samples": s }]);
        }
    }
    if r.chance(6) {
        // one long sample
        let mut t = String::new();
        while t.len() < 9000 {
            t += r.pick(&pool);
        }
        sc["sources"][0]["samples"].as_array_mut().unwrap().push(json!(t));
    }
    if r.chance(2) {
        sc["sources"] = bulk(r, &pool, true, 100);
    }
    if r.chance(2) {
        let chars = r.chance(50);
        sc["sources"] = wild(r, chars, 4000);
    }
    if r.chance(25) {
        sc["added"] = json!(listed(r, &pool, thorough));
    }
    if r.chance(25) {
        sc["suggested"] = json!(listed(r, &pool, thorough));
    }
    let v = *r.pick(&["0", "100", "255", "256", "257", "260", "270", "300", "300", "400", "700", "5000"]);
    let mut o = args(&["-v", v, "--max-token-length", r.pick(&["1", "2", "4", "8", "8", "24", "100"])]);
    if !p.is_empty() {
        o.extend(args(&["--insert-probability", p]));
    }
    sc["!opts"] = json!(o);
    if r.chance(1) && p == "1" {
        // tens of thousands of different candidates
        let most = *r.pick(&[60_000usize, 200_000]);
        sc["sources"] = wild(r, false, most);
        sc["procs"] = json!([]);
        sc["allow"] = json!("^[a-z0-9]{3,5}$");
        sc["split"] = json!("[a-z0-9]+");
        sc["!opts"] = json!(args(&["-v", r.pick(&["100000", "100000", "70000", "20000"]), "--max-token-length", "5", "--insert-probability", "1"]));
    }
    sc
}
fn listed(r: &mut Rng, pool: &[String], thorough: bool) -> Vec<String> {
    let n = if r.chance(10) { 60 } else { 5 };
    let _ = thorough;
    (0..r.range(1, n))
        .map(|_| match r.below(5) {
            0 => format!("absent{}", r.below(50)),
            1 => r.pick(pool).clone() + r.pick(pool),
            _ => r.pick(pool).clone(),
        })
        .collect()
}
/// Bytes, listed and other tokens of a generated vocabulary.
pub struct Parts {
    pub bytes: HashMap<u8, Tok>,
    pub others: Vec<(String, Tok)>,
}
pub fn parts(v: &[Tok]) -> Result<Parts, Verdict> {
    let mut p = Parts { bytes: HashMap::new(), others: vec![] };
    let mut seen = HashSet::new();
    for t in v {
        ensure!(seen.insert(t.v.clone()), "duplicate", "token {:?} appears twice", String::from_utf8_lossy(&t.v));
        ensure!(!t.v.is_empty(), "token", "an empty token was generated");
        if t.v.len() == 1 {
            p.bytes.insert(t.v[0], t.clone());
        } else {
            match String::from_utf8(t.v.clone()) {
                Ok(s) => p.others.push((s, t.clone())),
                Err(_) => return Err(viol("token", format!("token {} is no substring of any text", hex(&t.v)))),
            }
        }
    }
    for b in 0..=255u8 {
        if utf8_byte(b) {
            match p.bytes.get(&b) {
                None => return Err(viol("bytes", format!("byte {b:#04x} is missing"))),
                Some(t) => ensure!(t.keep, "bytes", "byte {b:#04x} is not protected"),
            }
        }
    }
    let s0 = p.bytes.values().next().unwrap().s;
    ensure!(p.bytes.values().all(|t| near(t.s, s0)), "scores", "single bytes are scored differently");
    Ok(p)
}
/// Added and suggested tokens that have to be there, with their protection.
pub fn must_list(sc: &Value, room: usize) -> Vec<(String, bool)> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for (k, keep) in [("added", true), ("suggested", false)] {
        for t in strs(&sc[k]) {
            if t.len() > 1 && seen.insert(t.clone()) && out.len() < room {
                out.push((t, keep));
            }
        }
    }
    out
}
pub fn judge(sc: &Value, v: &[Tok], c: &Counts) -> Result<(), Verdict> {
    let p = parts(v)?;
    let size = opt_n(sc, &["-v"], 0);
    let room = size.saturating_sub(p.bytes.len());
    let all = c.all();
    let high = all.values().copied().max().unwrap_or(1).max(1);
    let lists = must_list(sc, room);
    let listset: HashMap<&str, bool> = lists.iter().map(|(t, k)| (t.as_str(), *k)).collect();
    let out: HashMap<&str, &Tok> = p.others.iter().map(|(s, t)| (s.as_str(), t)).collect();
    for (t, keep) in &lists {
        match out.get(t.as_str()) {
            None => return Err(viol("listed", format!("listed token {t:?} is missing from {} of {size} tokens", v.len()))),
            Some(x) => ensure!(x.keep == *keep, "listed", "listed token {t:?} has keep={}", x.keep),
        }
    }
    let cand: HashMap<&str, u64> = all.iter().filter(|(t, _)| t.len() > 1 && !listset.contains_key(**t)).map(|(t, n)| (*t, *n)).collect();
    let picked: Vec<&str> = p.others.iter().map(|(s, _)| s.as_str()).filter(|s| !listset.contains_key(s)).collect();
    let mut low = u64::MAX;
    for t in &picked {
        let n = cand.get(t);
        ensure!(n.is_some(), "candidate", "token {t:?} is in the vocabulary but in no sample");
        ensure!(!out[t].keep, "protected", "token {t:?} is protected without being listed");
        low = low.min(*n.unwrap());
    }
    let want = (room - lists.len().min(room)).min(cand.len());
    ensure!(picked.len() == want, "fill", "{} most frequent candidates in the vocabulary, expected {want} of {}", picked.len(), cand.len());
    let pk: HashSet<&str> = picked.iter().copied().collect();
    if let Some((t, n)) = cand.iter().filter(|(t, _)| !pk.contains(**t)).max_by_key(|(_, n)| **n) {
        ensure!(picked.is_empty() || *n <= low, "frequency", "{t:?} in {n} samples was left out, one in {low} was taken");
    }
    let w = |t: &Tok| {
        if t.v.len() == 1 {
            high as f64
        } else {
            (all[std::str::from_utf8(&t.v).unwrap()] * t.v.len() as u64) as f64
        }
    };
    let total: f64 = v.iter().map(w).sum();
    for t in v {
        let s = w(t).ln() - total.ln();
        ensure!(near(t.s, s), "score", "{:?} has score {}, sequential counting gives {s} (weight {} of {total})", String::from_utf8_lossy(&t.v), t.s, w(t));
    }
    Ok(())
}
pub fn descending(v: &[Tok]) -> Result<(), Verdict> {
    for w in v.windows(2) {
        ensure!(w[0].s >= w[1].s, "order", "score {} stands before {}", w[0].s, w[1].s);
    }
    Ok(())
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let mut sc = gen_generate(r, "1", thorough);
        if r.chance(2) {
            let sym = r.range(4, 20);
            sc["sources"] = vast(r, sym);
            let mut o = strs(&sc["!opts"]);
            for i in 0..o.len() {
                if o[i] == "--max-token-length" {
                    o[i + 1] = r.pick(&["2", "3", "4"]).to_string();
                }
            }
            sc["!opts"] = json!(o);
        }
        let n = r.range(1, 3);
        sc["sims"] = json!((0..n).map(|_| Value::Object(sched(r))).collect::<Vec<_>>());
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let src = loaded(&sc["sources"], &procs);
        let max = opt_n(sc, &["--max-token-length"], 24);
        let counts = match gen_counts(sc, &src, max) {
            Ok(x) => x,
            Err(e) => return Ok(Verdict::Skip(e)),
        };
        for s in sc["sims"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
            c.wipe();
            let a = prepare(c, sc, "out.json");
            let run = c.cli(&cfg_of(s), &a, "info")?;
            if let Some(e) = bad_end(&run) {
                return Err(viol("hang", e));
            }
            ensure!(run.ok(), "failed", "generate ends with {}: {}", run.status(), clip(&run.panic_line(), 200));
            let out = c.get("out.json").unwrap_or_default();
            let (f, _) = parse_file(&out).map_err(|e| viol("output", e))?;
            ensure!(f.procs == procs && f.special == strs(&sc["special"]), "output", "special tokens {:?}, processors {:?}", f.special, f.procs);
            judge(sc, &f.vocab, &counts)?;
            descending(&f.vocab)?;
        }
        c.probe("vocabulary equals sequential counting");
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
