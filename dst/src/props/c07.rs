//! Generation with any probability: admissible vocabularies, faithful counts.
use super::c06::{descending, gen_generate, must_list, parts};
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, Tok};
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;

pub struct C07;
const NATS: f64 = 30.0;

/// The smallest scale that makes every count a whole number.
fn whole(v: &[Tok], c: &Counts, bytes: f64) -> Result<(u64, HashMap<String, u64>), Verdict> {
    let lists: u64 = c.listed.values().sum();
    let top = (c.samples + lists).max(1);
    let mut worst = String::new();
    'h: for h in 1..=top {
        let mut m = HashMap::new();
        for t in v.iter().filter(|t| t.v.len() > 1) {
            let x = h as f64 * (t.s - bytes).exp() / t.v.len() as f64;
            let n = x.round();
            if (x - n).abs() > 1e-6 * (1.0 + n) || n < 1.0 || n > h as f64 {
                worst = format!("{:?} would count {x} if the highest count is {h}", String::from_utf8_lossy(&t.v));
                continue 'h;
            }
            m.insert(String::from_utf8_lossy(&t.v).into_owned(), n as u64);
        }
        return Ok((h, m));
    }
    Err(viol("counts", format!("scores do not come from whole-number counts up to {top}: {worst}")))
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        if r.chance(35) {
            // identical samples, everything fits: the counts are binomial
            let p = *r.pick(&["0.5", "0.1", "0.9", "0.3", "0.05", "0.7", "0.02", "0.98", "", "0.003", "0.01", "0.001", "0.004", "0.998"]);
            let n = r.range(40, if thorough { 400 } else { 160 });
            // distinct letters: each candidate occurs once; some words repeat
            let letters = "abcdefghijklmnopqrstuvwxyz";
            let k = r.range(4, 16);
            let mut t: String = letters[..k].to_string();
            if r.chance(50) {
                t = format!("{t}-{}", &letters[..r.range(2, k)]);
            }
            if r.chance(30) {
                t += "é你";
            }
            let split = r.chance(25);
            let nsrc = if r.chance(30) { 2 } else { 1 };
            let fine = matches!(p, "0.003" | "0.01" | "0.001" | "0.004" | "0.998");
            let n = if fine { r.range(1000, 5000) } else { n };
            let per = n / nsrc;
            let mut sc = json!({
                "cmd": "generate", "procs": procs(r), "special": specials(r, 2), "!stat": true,
                "sources": (0..nsrc).map(|_| if fine { json!({"samples": [t], "copies": per}) } else { json!({"samples": vec![t.clone(); per]}) }).collect::<Vec<_>>(),
            });
            let mut o = args(&["-v", "100000", "--max-token-length", r.pick(&["2", "3", "5", "24"])]);
            if !p.is_empty() {
                o.extend(args(&["--insert-probability", p]));
            }
            sc["!opts"] = json!(o);
            if split {
                sc["split"] = json!("[^-]+|-");
            }
            if r.chance(30) {
                sc["allow"] = json!(*r.pick(&["^[a-z]+$", "(?s)^.*$", "[b-e]"]));
            }
            sc["added"] = json!(["absent"]);
            if r.chance(30) {
                sc["added"] = json!([t.chars().take(r.range(2, 6)).collect::<String>(), "absent"]);
            }
            if r.chance(30) {
                sc["suggested"] = json!([t.chars().skip(1).take(r.range(2, 6)).collect::<String>()]);
            }
            sc["sims"] = json!([Value::Object(sched(r))]);
            return sc;
        }
        let p = *r.pick(&["1", "0", "0.0", "0.5", "0.5", "0.1", "0.9", "0.01", "", "0.99"]);
        let mut sc = gen_generate(r, p, thorough);
        let n = r.range(1, 2);
        sc["sims"] = json!((0..n).map(|_| Value::Object(sched(r))).collect::<Vec<_>>());
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let src = loaded(&sc["sources"], &procs);
        let max = opt_n(sc, &["--max-token-length"], 24);
        let p = opt_f(sc, &["--insert-probability"], 0.1);
        let size = opt_n(sc, &["-v"], 0);
        let counts = match gen_counts(sc, &src, max) {
            Ok(x) => x,
            Err(e) => return Ok(Verdict::Skip(e)),
        };
        let (split, allow) = match regexes(sc) {
            Ok(x) => x,
            Err(e) => return Ok(Verdict::Skip(e)),
        };
        for s in sc["sims"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
            c.wipe();
            let a = prepare(c, sc, "out.json");
            let run = c.cli(&cfg_of(s), &a, "info")?;
            if let Some(e) = bad_end(&run) {
                return Err(viol("hang", e));
            }
            ensure!(run.ok(), "failed", "generate ends with {}: {}", run.status(), clip(&run.panic_line(), 200));
            let out = c.get("out.json").unwrap_or_default();
            let (f, _) = parse_file(&out).map_err(|e| viol("output", e))?;
            let v = &f.vocab;
            let pt = parts(v)?;
            ensure!(v.len() <= size.max(pt.bytes.len()) && pt.bytes.len() <= 256, "size", "{} tokens, {size} requested", v.len());
            let lists = must_list(sc, size.saturating_sub(pt.bytes.len()));
            for (t, keep) in &lists {
                match pt.others.iter().find(|(s, _)| s == t) {
                    None => return Err(viol("listed", format!("listed token {t:?} is missing from {} of {size} tokens", v.len()))),
                    Some((_, x)) => ensure!(x.keep == *keep, "listed", "listed token {t:?} has keep={}", x.keep),
                }
            }
            for (t, x) in &pt.others {
                if lists.iter().any(|(l, _)| l == t) {
                    continue;
                }
                ensure!(counts.total(t) > 0, "admissible", "{t:?} is not an admissible substring of any sample");
                ensure!(!x.keep, "protected", "token {t:?} is protected without being listed");
            }
            let sum: f64 = v.iter().map(|t| t.s.exp()).sum();
            ensure!(v.iter().all(|t| t.s.is_finite() && t.s < 0.0) && (sum - 1.0).abs() < 1e-6, "distribution", "the scores are logarithms that sum to {sum}");
            descending(v)?;
            let bs = pt.bytes.values().next().unwrap().s;
            let (_, n) = whole(v, &counts, bs)?;
            for (t, k) in &n {
                ensure!(*k <= counts.total(t), "counts", "{t:?} counted {k} times, it is in {} samples and listed {} times", counts.docs.get(t).unwrap_or(&0), counts.listed.get(t).unwrap_or(&0));
            }
            if sc["!stat"] == true && counts.samples >= 20 {
                // all samples are equal (after preprocessing): one is enough to know the occurrences
                let x = src.iter().flatten().next().unwrap();
                let mut occ: HashMap<String, u64> = HashMap::new();
                for (t, o) in candidates(x, split.as_ref(), allow.as_ref(), max).unwrap_or_default() {
                    *occ.entry(t.to_string()).or_default() += o;
                }
                // each listing draws again for its occurrences
                for k in ["added", "suggested"] {
                    for l in strs(&sc[k]) {
                        let m = x.matches(l.as_str()).count() as u64;
                        if m > 0 {
                            *occ.entry(l).or_default() += m;
                        }
                    }
                }
                occ.retain(|t, _| t.len() > 1);
                // a listed token that occurs nowhere fixes the scale of the counts
                ensure!(n.get("absent") == Some(&1), "counts", "a listed token that occurs nowhere is counted {:?} times", n.get("absent"));
                let samples = counts.samples;
                let mut by_q: HashMap<u64, Vec<u64>> = HashMap::new();
                for (t, o) in &occ {
                    let l = counts.listed.get(t).copied().unwrap_or(0);
                    let k = n.get(t).copied().unwrap_or(0);
                    ensure!(k >= l, "counts", "{t:?} is listed {l} times and counted {k} times");
                    let x = k - l.min(k);
                    let q = 1.0 - (1.0 - p).powi(*o as i32);
                    ensure!(!improbable(x, samples, q, NATS), "probability", "{t:?} occurs {o} times in each of {samples} samples and was counted {x} times at probability {p}");
                    by_q.entry(*o).or_default().push(x);
                }
                for (o, xs) in by_q {
                    let q = 1.0 - (1.0 - p).powi(o as i32);
                    let m = xs.len() as u64;
                    let tot: u64 = xs.iter().sum();
                    ensure!(!improbable(tot, samples * m, q, NATS), "probability", "{m} candidates in {samples} samples were counted {tot} times at probability {q}");
                    let var = samples as f64 * q * (1.0 - q);
                    if var >= 4.0 && m >= 4 {
                        let chi: f64 = xs.iter().map(|x| (*x as f64 - samples as f64 * q).powi(2) / var).sum();
                        let t = m as f64;
                        // independent draws: chi-square with m degrees of freedom
                        ensure!(chi < t + 2.0 * (t * 40.0).sqrt() + 80.0, "independence", "the counts of {m} candidates vary {:.1} times as much as independent draws at probability {q}", chi / t);
                        ensure!(m < 60 || chi > t - 2.0 * (t * 40.0).sqrt(), "independence", "the counts of {m} candidates vary only {:.2} times as much as independent draws", chi / t);
                    }
                }
                c.probe("counts have the configured distribution");
            }
        }
        c.probe("vocabulary is admissible");
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence (which includes the random stream drawn)"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
