//! Mining: exact counts under every schedule.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::util::*;
use serde_json::json;
use std::collections::{HashMap, HashSet};

pub struct C12;

/// How often each idiom occurs.
pub fn counts<'a>(sc: &Value, src: &'a [Vec<String>]) -> Result<HashMap<&'a str, u64>, &'static str> {
    let pats = strs(&sc["patterns"]);
    if pats.is_empty() || src.is_empty() {
        return Err("no patterns or samples");
    }
    let re = pats.iter().map(|p| format!("(?:{p})")).collect::<Vec<_>>().join("|");
    let re = regex::Regex::new(&re).map_err(|_| "bad pattern")?;
    let mut count: HashMap<&str, u64> = HashMap::new();
    for s in src.iter().flatten() {
        for m in re.find_iter(s) {
            *count.entry(m.as_str()).or_default() += 1;
        }
    }
    Ok(count)
}
pub fn judge(out: &[u8], count: &HashMap<&str, u64>, n: usize) -> Result<(), Verdict> {
    let out: Vec<String> = serde_json::from_slice(out).map_err(|e| viol("output", e.to_string()))?;
    let set: HashSet<&str> = out.iter().map(|s| s.as_str()).collect();
    ensure!(set.len() == out.len(), "duplicate", "an idiom is listed twice: {out:?}");
    let want = n.min(count.len());
    ensure!(out.len() == want, "number", "{} idioms, {n} requested, {} occur", out.len(), count.len());
    let mut last = u64::MAX;
    for o in &out {
        let k = count.get(o.as_str()).copied().unwrap_or(0);
        ensure!(k > 0, "invented", "{o:?} does not occur");
        ensure!(k <= last, "order", "{o:?} occurs {k} times and stands after an idiom that occurs {last} times");
        last = k;
    }
    if let Some((t, k)) = count.iter().filter(|(t, _)| !set.contains(**t)).max_by_key(|(_, k)| **k) {
        ensure!(out.is_empty() || *k <= last, "left-out", "{t:?} occurs {k} times and was left out, one that occurs {last} times was taken");
    }
    Ok(())
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let pool = pool(r);
        let k = if r.chance(30) { 120 } else { 20 };
        let mut sc = command(r, "mine", &pool, k);
        if r.chance(40) {
            // counts one apart, spread over many samples
            let words: Vec<String> = (0..r.range(2, 12)).map(|i| format!("w{}", (b'a' + i as u8) as char)).collect();
            let base = r.range(1, if thorough { 60 } else { 25 });
            let mut bag: Vec<String> = vec![];
            for (i, w) in words.iter().enumerate() {
                for _ in 0..base + i {
                    bag.push(w.clone());
                }
            }
            r.shuffle(&mut bag);
            let per = r.range(1, 6);
            let samples: Vec<String> = bag.chunks(per).map(|c| c.join(" ")).collect();
            sc["sources"] = json!([{ "samples": samples }]);
            sc["patterns"] = json!([*r.pick(&["w[a-z]", "\\w+", "w.", "[a-z]{2}"])]);
        }
        if r.chance(15) {
            // which would match across the end of a sample
            let p = *r.pick(&["[^a]+", "\\W+", "(?s).{1,9}", "\\w+\\s*", "[^\\w]*\\w", "(?s)e.*a", "\\b\\w", "\\w$", "^.", "[^;]{2}"]);
            sc["patterns"] = json!([p]);
        }
        if r.chance(4) {
            sc["sources"] = bulk(r, &pool, false, 800_000);
        }
        if r.chance(6) {
            let most = if r.chance(25) { 300_000 } else { 60_000 };
            sc["sources"] = wild(r, false, most);
            sc["patterns"] = json!([*r.pick(&["\\w+", "[a-z0-9]+", "[a-z]{2}"])]);
        }
        let long = r.chance(4);
        if long {
            // one long sample of few words, where any cut would make new ones
            let words: Vec<String> = (0..r.range(1, 3)).map(|_| r.pick(&pool).clone()).collect();
            let s = words.join(" ") + r.pick(&[" ", ",", "\n"]);
            sc["sources"] = json!([{"samples": [s.as_str()], "join": *r.pick(&[66_000usize, 140_000, 300_000]) / s.len() + r.below(3)}]);
            sc["patterns"] = json!([*r.pick(&["\\w+", "\\S+", "[^ ]+", "\\w+\\W+\\w+", "[a-z]{2}"])]);
        }
        let most = if long { r.pick(&[20usize, 1000]) } else { r.pick(&[0usize, 1, 2, 3, 5, 8, 20, 1000]) };
        sc["!opts"] = json!(args(&["-n", &most.to_string()]));
        let k = r.range(1, 3);
        sc["sims"] = json!((0..k).map(|_| Value::Object(sched(r))).collect::<Vec<_>>());
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let src = loaded(&sc["sources"], &[]);
        let n = opt_n(sc, &["-n"], 0);
        let count = match counts(sc, &src) {
            Ok(x) => x,
            Err(e) => return Ok(Verdict::Skip(e)),
        };
        for s in sc["sims"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
            c.wipe();
            let a = prepare(c, sc, "out.json");
            let run = c.cli(&cfg_of(s), &a, "info")?;
            if let Some(e) = bad_end(&run) {
                return Err(viol("hang", e));
            }
            ensure!(run.ok(), "failed", "mine ends with {}: {}", run.status(), clip(&run.panic_line(), 200));
            judge(&c.get("out.json").unwrap_or_default(), &count, n)?;
        }
        if count.values().any(|n| *n > 65_535) {
            c.probe("counts over 16 bits");
        }
        c.probe("idioms equal sequential counting");
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
