//! Merging ends; ids stay one-to-one.
use super::c10::gen_merge;
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, Tok};
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;

pub struct C11;

pub fn judge_merge(input: &[Tok], out: &[Tok], merges: usize) -> Result<(), Verdict> {
    ensure!(out.len() >= input.len(), "lost", "{} tokens before, {} after", input.len(), out.len());
    for (i, (a, b)) in input.iter().zip(out).enumerate() {
        ensure!(a.v == b.v && a.s == b.s && a.keep == b.keep, "changed", "token {i} was {:?} and is {:?}", a, b);
    }
    ensure!(out.len() - input.len() <= merges, "too-many", "{} merges, {merges} requested", out.len() - input.len());
    let mut seen = HashSet::new();
    for t in out {
        ensure!(seen.insert(&t.v), "duplicate", "token {:?} appears twice", String::from_utf8_lossy(&t.v));
        ensure!(t.s.is_finite(), "score", "token {:?} has score {}", String::from_utf8_lossy(&t.v), t.s);
    }
    Ok(())
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let mut sc = gen_merge(r, thorough);
        let merges = *r.pick(&[0usize, 1, 2, 5, 10, 10, 30, 100, 400]);
        let mut o = args(&["--num-merges", &merges.to_string(), "--step", r.pick(&["1", "2", "3", "7", "20", "50", "1000"])]);
        o.extend(args(&["--scale-factor", r.pick(&["0.9", "0.5", "1", "1.5", "0.1"])]));
        o.extend(args(&["--max-token-length", r.pick(&["0", "1", "2", "3", "4", "8", "24"])]));
        sc["!opts"] = json!(o);
        if r.chance(25) {
            sc["allow"] = json!(*r.pick(&["^$", "^ab$", "^(ab|abc|abcd)$", "^a+$", "zzzz", "^.$"]));
        }
        if r.chance(20) {
            // hardly anything to merge
            sc["sources"] = json!([{ "samples": [*r.pick(&["a", "ab", "aaaa", "abababab", "é", "ababc", ""])] }]);
        }
        if r.chance(15) {
            let lone = samples_of(&sc["sources"][0]);
            sc["sources"] = json!([{ "samples": lone.iter().filter_map(|s| s.chars().next()).map(|c| c.to_string()).collect::<Vec<_>>() }]);
        }
        if r.chance(4) {
            // as many merges as by default, and more
            sc["sources"] = wild(r, true, 20_000);
            sc["allow"] = json!("(?s)^.*$");
            sc["!opts"] = json!(args(&["--num-merges", r.pick(&["500", "1000", "1500"]), "--step", r.pick(&["50", "60", "200", "1000"]), "--scale-factor", "0.9"]));
        }
        sc["sim"] = Value::Object(sched(r));
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let src = loaded(&sc["sources"], &procs);
        let samples: Vec<&str> = src.iter().flatten().map(|s| s.as_str()).collect();
        let v = tokfile(sc).vocab;
        let merges = opt_n(sc, &["--num-merges"], 1000);
        let max = opt_n(sc, &["--max-token-length"], 24);
        let Ok((_, Some(allow))) = regexes(sc) else { return Ok(Verdict::Skip("no allow pattern")) };
        let a = prepare(c, sc, "out.json");
        let run = c.cli(&cfg_of(&sc["sim"]), &a, "info")?;
        if let Some(e) = bad_end(&run) {
            return Err(viol("termination", e));
        }
        ensure!(run.ok(), "failed", "merge ends with {}: {}", run.status(), clip(&run.panic_line(), 200));
        let (f, _) = parse_file(&c.get("out.json").unwrap_or_default()).map_err(|e| viol("output", e))?;
        ensure!(f.procs == procs, "carried-over", "processors {:?}, configured {procs:?}", f.procs);
        ensure!(f.special == strs(&sc["special"]), "carried-over", "special tokens {:?}", f.special);
        judge_merge(&v, &f.vocab, merges)?;
        let done = f.vocab.len() - v.len();
        if done < merges {
            let p = pairs(&f.vocab, &samples);
            if p.tie || p.fails {
                return Ok(Verdict::Skip("a sample has two best segmentations"));
            }
            let have: HashSet<&[u8]> = f.vocab.iter().map(|t| t.v.as_slice()).collect();
            for ((a, b), n) in &p.count {
                let val: Vec<u8> = f.vocab[*a as usize].v.iter().chain(&f.vocab[*b as usize].v).copied().collect();
                let free = val.len() <= max && allow.is_match(&String::from_utf8_lossy(&val)) && !have.contains(val.as_slice());
                ensure!(!free, "too-few", "{done} of {merges} merges, but {:?} could be merged ({n} occurrences)", String::from_utf8_lossy(&val));
            }
            c.probe("ends with nothing left to merge");
        } else {
            c.probe("all merges done");
        }
        // ids and tokens, as the real code sees them
        if done > 0 {
            let mut ops = vec![json!({"op": "load", "path": "out.json"}), json!({"op": "sizes"})];
            for t in &f.vocab[v.len()..] {
                ops.push(json!({"op": "base_token_to_id", "token": hex(&t.v)}));
            }
            let (run, res) = c.driver(&seq(5), &json!(ops))?;
            alive(&run, &res, ops.len())?;
            ensure!(okv(&res[1], "sizes")?[1] == json!(f.vocab.len()), "ids", "{} tokens written, {} loaded", f.vocab.len(), res[1]);
            for (k, r) in res[2..].iter().enumerate() {
                ensure!(okv(r, "id")? == &json!(v.len() + k), "ids", "token {} has id {}", v.len() + k, r);
            }
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence (which includes the order the samples were shuffled into)"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo, and the real library loading its output", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
