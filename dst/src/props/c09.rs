//! Pruning ends, and what it leaves.
use super::c08::gen_prune;
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, viterbi, Tok, Trie};
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;

pub struct C09;

/// Size reached, or nothing left that could go?
pub fn judge_prune(input: &[Tok], out: &[Tok], size: usize) -> Result<(), Verdict> {
    let inn: HashMap<&[u8], &Tok> = input.iter().map(|t| (t.v.as_slice(), t)).collect();
    let mut seen = HashMap::new();
    for t in out {
        let name = String::from_utf8_lossy(&t.v);
        match inn.get(t.v.as_slice()) {
            None => return Err(viol("invented", format!("{name:?} is not in the input vocabulary"))),
            Some(x) => ensure!(x.keep == t.keep, "protection", "{name:?} had keep={}, now {}", x.keep, t.keep),
        }
        ensure!(seen.insert(t.v.as_slice(), t.s).is_none(), "duplicate", "{name:?} appears twice");
        ensure!(t.s.is_finite(), "score", "{name:?} has score {}", t.s);
    }
    for t in input.iter().filter(|t| t.keep) {
        ensure!(seen.contains_key(t.v.as_slice()), "protected-lost", "protected token {:?} was pruned", String::from_utf8_lossy(&t.v));
    }
    if input.len() <= size {
        for t in input {
            ensure!(seen.contains_key(t.v.as_slice()), "needless", "{:?} was pruned from {} tokens, {size} requested", String::from_utf8_lossy(&t.v), input.len());
        }
    }
    if out.len() > size {
        for (i, t) in out.iter().enumerate().filter(|(_, t)| !t.keep) {
            let rest: Vec<Tok> = out.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, t)| t.clone()).collect();
            if let Some(b) = viterbi(&rest, &Trie::new(&rest), &t.v) {
                ensure!(
                    near(b.score, t.s),
                    "size",
                    "{} tokens left, {size} requested, but {:?} (score {}) has a replacement with score {}",
                    out.len(),
                    String::from_utf8_lossy(&t.v),
                    t.s,
                    b.score
                );
            }
        }
    }
    Ok(())
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let mut sc = gen_prune(r, thorough);
        let n = sc["vocab"].as_array().unwrap().len();
        if r.chance(25) {
            // many protected tokens
            for t in sc["vocab"].as_array_mut().unwrap() {
                if r.chance(60) {
                    t[2] = json!(true);
                }
            }
        }
        if r.chance(20) {
            // tokens that are worse than their parts, and much better ones
            for t in sc["vocab"].as_array_mut().unwrap() {
                if t[0].as_str().map_or(0, |s| s.len()) > 2 && r.chance(60) {
                    t[1] = json!(bits(if r.chance(50) { -60.0 - r.below(100) as f64 / 4.0 } else { -0.25 }));
                }
            }
        }
        if r.chance(20) {
            // samples from elsewhere: most tokens never occur
            let other = pool(r);
            sc["sources"] = sources(r, &other, 2, 10, 10);
        }
        if r.chance(25) {
            // only the bytes that are needed
            let procs = strs(&sc["procs"]);
            let need: std::collections::HashSet<u8> = loaded(&sc["sources"], &procs).iter().flatten().flat_map(|s| s.bytes()).collect();
            let k: Vec<Value> = toks_of(&sc["vocab"]).into_iter().filter(|t| t.v.len() > 1 || need.contains(&t.v[0])).map(|t| tok_json(&t)).collect();
            sc["vocab"] = json!(k);
        }
        if r.chance(8) {
            // very many small steps
            let k = r.range(60, if thorough { 300 } else { 160 });
            let mut v = bytes_vocab(r, true);
            let mut items = vec![];
            for i in 0..k {
                let t = format!("{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
                items.push(format!("{t}. ").repeat(r.range(1, 12)));
                v.push(Tok { v: t.into_bytes(), s: score(r), keep: false });
            }
            sc["vocab"] = toks_json(&v);
            sc["procs"] = json!([]);
            sc["sources"] = json!([{ "samples": items }]);
            let size = 256 + r.below(10);
            sc["!opts"] = json!(args(&["-v", &size.to_string(), "--dropout", r.pick(&["0", "0.1"]), "--shrink-factor", r.pick(&["0.99", "0.995", "0.999"]), "--em-subiters", r.pick(&["0", "1"])]));
            sc["sim"] = Value::Object(sched(r));
            return sc;
        }
        let n = sc["vocab"].as_array().unwrap().len().min(n);
        let keep = toks_of(&sc["vocab"]).iter().filter(|t| t.keep).count();
        let size = match r.below(10) {
            0 => 0,
            1 => 1,
            2 => keep,
            3 => keep.saturating_sub(1),
            4 => keep + 1,
            5 => n,
            6 => n - 1,
            7 => n + 10,
            _ => r.range(0, n),
        };
        sc["!opts"] = json!(args(&[
            "-v",
            &size.to_string(),
            "--dropout",
            r.pick(&["0", "0.01", "0.1", "0.5", "0.9", "1"]),
            "--shrink-factor",
            r.pick(&["0.5", "0.8", "0.95", "0.99", "0.999", "0.01", "0"]),
            "--em-subiters",
            r.pick(&["0", "1", "1", "2", "4"]),
        ]));
        sc["sim"] = Value::Object(sched(r));
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let v = toks_of(&sc["vocab"]);
        let a = prepare(c, sc, "out.json");
        let run = c.cli(&cfg_of(&sc["sim"]), &a, "info")?;
        if let Some(e) = bad_end(&run) {
            return Err(viol("termination", e));
        }
        if !run.ok() {
            // no samples, or a loss that cannot be computed: it says so
            let p = run.panic_line();
            if p.contains("f64::NaN") || p.contains("invalid frequency") {
                // with a protected token for every byte of the samples there
                // is always a path, and with negative scores its sum is not 0
                let mut base = [false; 256];
                for t in v.iter().filter(|t| t.keep && t.v.len() == 1) {
                    base[t.v[0] as usize] = true;
                }
                let covered = loaded(&sc["sources"], &procs).iter().flatten().all(|s| s.bytes().all(|b| base[b as usize]));
                ensure!(
                    !(covered && p.contains("normalization constant") && v.iter().filter(|t| t.keep).count() > 1 && v.iter().all(|t| t.s < -0.01 && t.s > -1e4)),
                    "no-path",
                    "prune ends with a sample that has no segmentation, although every byte of the samples has a protected token: {}",
                    clip(&p, 200)
                );
                return Ok(Verdict::Skip("degenerate statistics"));
            }
            if loaded(&sc["sources"], &procs).iter().flatten().next().is_none() {
                return Ok(Verdict::Skip("no samples"));
            }
            return Err(viol("failed", format!("prune ends with {}: {}", run.status(), clip(&p, 200))));
        }
        let (f, _) = parse_file(&c.get("out.json").unwrap_or_default()).map_err(|e| viol("output", e))?;
        ensure!(f.procs == procs, "carried-over", "processors {:?}, configured {procs:?}", f.procs);
        ensure!(f.special == strs(&sc["special"]), "carried-over", "special tokens {:?}", f.special);
        let size = opt_n(sc, &["-v"], 0);
        judge_prune(&v, &f.vocab, size)?;
        c.probe(if f.vocab.len() > size {
            "ends above the size"
        } else if v.len() <= size {
            "nothing to do"
        } else {
            "reaches the size"
        });
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence (which includes the random stream drawn)"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
