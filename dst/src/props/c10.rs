//! Merging, replayed step by step against sequential counting.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, Tok};
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct C10;

/// A vocabulary to merge in, with samples that have frequent pairs.
pub fn gen_merge(r: &mut Rng, thorough: bool) -> Value {
    let pool = pool(r);
    let k = if r.chance(15) { 60 } else { 14 };
    let mut sc = command(r, "merge", &pool, k);
    if r.chance(25) {
        let base: Vec<String> = (0..r.range(1, 4)).map(|_| text(r, &pool, 12)).filter(|s| !s.is_empty()).collect();
        if !base.is_empty() {
            let k = r.range(20, 120);
            sc["sources"] = json!([{ "samples": (0..k).map(|_| r.pick(&base).clone()).collect::<Vec<_>>() }]);
        }
    }
    let big = r.chance(3);
    if big {
        sc["sources"] = bulk(r, &pool, false, 300_000);
    }
    let wide = !big && r.chance(8);
    if wide {
        sc["sources"] = wild(r, true, 40_000);
    }
    let big = big || if r.chance(2) {
        sc["sources"] = vast(r, 85);
        true
    } else {
        false
    };
    let full = !big && !wide && r.chance(2);
    if full {
        // more tokens than fit into 16 bits, and pairs of them
        let (n, t) = fill(r);
        sc["fill"] = json!(n);
        let k = r.range(2, 9);
        sc["sources"] = json!([{ "samples": (0..k).map(|_| t.clone() + r.pick(&pool)).collect::<Vec<_>>() }]);
        sc["allow"] = json!("(?s)^.*$");
    }
    let n = r.range(if full { 1 } else { 0 }, if big || wide || full { 6 } else if thorough { 60 } else { 25 });
    sc["!opts"] = json!(args(&[
        "--num-merges",
        &n.to_string(),
        "--step",
        &r.pick(&[1usize, 1, 2, 3, 5, 8, 50]).to_string(),
        "--scale-factor",
        r.pick(&["0.9", "0.5", "0.75", "0.99", "1", "1.25", "0"]),
        "--max-token-length",
        if full { "24" } else { r.pick(&["2", "3", "4", "6", "8", "24", "100"]) },
    ]));
    sc
}
struct Opts {
    merges: usize,
    step: usize,
    scale: f64,
    max: usize,
}
fn opts(sc: &Value) -> Opts {
    Opts { merges: opt_n(sc, &["--num-merges"], 1000), step: opt_n(sc, &["--step"], 50), scale: opt_f(sc, &["--scale-factor"], 0.9), max: opt_n(sc, &["--max-token-length"], 24) }
}
fn cat(v: &[Tok], p: (u32, u32)) -> (Vec<u8>, f64) {
    let (a, b) = (&v[p.0 as usize], &v[p.1 as usize]);
    (a.v.iter().chain(&b.v).copied().collect(), a.s + b.s)
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let mut sc = gen_merge(r, thorough);
        let k = r.range(1, 2);
        sc["sims"] = json!((0..k).map(|_| Value::Object(sched(r))).collect::<Vec<_>>());
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let src = loaded(&sc["sources"], &procs);
        let samples: Vec<&str> = src.iter().flatten().map(|s| s.as_str()).collect();
        let v = tokfile(sc).vocab;
        let o = opts(sc);
        let Ok((_, Some(allow))) = regexes(sc) else { return Ok(Verdict::Skip("no allow pattern")) };
        if o.step == 0 {
            return Ok(Verdict::Skip("step 0"));
        }
        let mut whole = true;
        for s in sc["sims"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
            c.wipe();
            let a = prepare(c, sc, "out.json");
            let run = c.cli(&cfg_of(s), &a, "info")?;
            if let Some(e) = bad_end(&run) {
                return Err(viol("hang", e));
            }
            ensure!(run.ok(), "failed", "merge ends with {}: {}", run.status(), clip(&run.panic_line(), 200));
            let (f, _) = parse_file(&c.get("out.json").unwrap_or_default()).map_err(|e| viol("output", e))?;
            ensure!(f.vocab.len() >= v.len() && f.vocab[..v.len()] == v[..], "prefix", "the tokens that were there changed");
            whole &= replay(&f.vocab, v.len(), &samples, &o, &allow, c)?;
        }
        if !whole {
            return Ok(Verdict::Skip("a sample has two best segmentations"));
        }
        c.probe("merges equal sequential counting");
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence (which includes the order the samples were shuffled into)"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
/// Does the output equal the input and the merges sequential counting gives?  Ok(false): undecided.
pub fn judge_exact(sc: &Value, v: &[Tok], out: &[Tok], samples: &[&str], c: &mut Ctx) -> Result<bool, Verdict> {
    let Ok((_, Some(allow))) = regexes(sc) else { return Ok(false) };
    ensure!(out.len() >= v.len() && out[..v.len()] == v[..], "prefix", "the tokens that were there changed");
    replay(out, v.len(), samples, &opts(sc), &allow, c)
}
/// Ok(false): true as far as it could be decided.
fn replay(out: &[Tok], n0: usize, samples: &[&str], o: &Opts, allow: &regex::Regex, c: &mut Ctx) -> Result<bool, Verdict> {
    let name = |t: &[u8]| String::from_utf8_lossy(t).into_owned();
    let mut have: HashSet<Vec<u8>> = out[..n0].iter().map(|t| t.v.clone()).collect();
    let mut at = n0;
    // every token on its own
    for t in &out[n0..] {
        ensure!(t.v.len() <= o.max, "length", "{:?} is {} bytes long, at most {} allowed", name(&t.v), t.v.len(), o.max);
        ensure!(allow.is_match(&name(&t.v)), "pattern", "{:?} does not match the allow pattern", name(&t.v));
        ensure!(!t.keep, "protection", "{:?} is protected", name(&t.v));
    }
    while at - n0 < o.merges {
        let v = &out[..at];
        let p = pairs(v, samples);
        if p.fails {
            return Ok(false);
        }
        if p.tie {
            // counts hinge on rounding; still: each token is a concatenation with the right score
            for k in at..out.len() {
                let t = &out[k];
                let ok = (1..t.v.len()).any(|i| {
                    let l: Vec<_> = out[..k].iter().filter(|x| x.v == t.v[..i]).collect();
                    let r: Vec<_> = out[..k].iter().filter(|x| x.v == t.v[i..]).collect();
                    l.iter().any(|a| r.iter().any(|b| close(t.s, (a.s + b.s) * o.scale)))
                });
                ensure!(ok, "score", "{:?} with score {} is no pair of tokens", name(&t.v), t.s);
            }
            return Ok(false);
        }
        let mut groups: BTreeMap<u64, HashMap<Vec<u8>, Vec<f64>>> = BTreeMap::new();
        for (pair, n) in &p.count {
            let (val, sc) = cat(v, *pair);
            if val.len() <= o.max && allow.is_match(&name(&val)) && !have.contains(&val) {
                groups.entry(*n).or_default().entry(val).or_default().push(sc * o.scale);
            }
        }
        // a value in two groups goes by the most frequent one
        let mut batch: HashSet<Vec<u8>> = HashSet::new();
        let mut room = o.step.min(o.merges - (at - n0));
        let start = at;
        for (n, vals) in groups.iter().rev() {
            let fresh: Vec<&Vec<u8>> = vals.keys().filter(|k| !batch.contains(*k)).collect();
            let take = fresh.len().min(room);
            for _ in 0..take {
                let Some(t) = out.get(at) else {
                    return Err(viol(
                        "missing",
                        format!("{} of {} merges done, but {:?} occurs {n} times and was not merged", at - n0, o.merges, name(fresh.iter().find(|x| !batch.contains(**x)).unwrap_or(&fresh[0]))),
                    ));
                };
                let Some(scs) = vals.get(&t.v).filter(|_| !batch.contains(&t.v)) else {
                    let k = groups.iter().rev().find(|(_, g)| g.contains_key(&t.v)).map(|(k, _)| *k);
                    return Err(viol("frequency", format!("merge {} adds {:?} ({k:?} occurrences), the most frequent pairs left occur {n} times, such as {:?}", at - n0, name(&t.v), name(fresh.iter().find(|x| !batch.contains(**x)).unwrap_or(&fresh[0])))));
                };
                ensure!(scs.iter().any(|s| close(t.s, *s)), "score", "{:?} has score {}, expected {:?}", name(&t.v), t.s, scs);
                batch.insert(t.v.clone());
                at += 1;
            }
            room -= take;
            if room == 0 {
                break;
            }
        }
        have.extend(batch);
        if at == start {
            break;
        }
        c.probe("merge step checked");
    }
    ensure!(at == out.len(), "frequency", "{} tokens were added although no admissible pair is left (or more than asked): {:?}", out.len() - at, name(&out[at].v));
    Ok(true)
}
