//! Pipelines of training commands, interrupted and run again.
use super::c09::judge_prune;
use super::c11::judge_merge;
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::{parse_file, preprocess, Piece, Ref, TokFile};
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;

pub struct C13;

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let pool = pool(r);
        let mut first = command(r, "generate", &pool, 14);
        let sp = specials(r, 3);
        let pr = procs(r);
        first["special"] = json!(sp);
        first["procs"] = json!(pr);
        let mut stages = vec![first];
        for _ in 0..r.range(1, if thorough { 6 } else { 4 }) {
            let cmd = *r.pick(&["prune", "prune", "filter", "merge", "merge"]);
            let mut sc = command(r, cmd, &pool, 10);
            let m = sc.as_object_mut().unwrap();
            m.remove("vocab");
            m.remove("procs");
            m.remove("special");
            if r.chance(20) {
                m.insert("inplace".into(), json!(true));
            }
            stages.push(sc);
        }
        for s in &mut stages {
            let mut sim = sched(r);
            if r.chance(30) {
                benign(r, &mut sim);
            }
            let f = *r.pick(&["none", "none", "kill", "kill", "kill_io", "full", "io"]);
            let m = s.as_object_mut().unwrap();
            m.insert("fault".into(), json!(f));
            m.insert("at".into(), json!(r.below(1_000_000)));
            m.insert("power".into(), json!(r.below(2)));
            m.insert("sim".into(), Value::Object(sim));
            m.insert("sim2".into(), Value::Object(sched(r)));
        }
        let texts: Vec<String> = (0..r.range(2, 6)).map(|_| mixed_text(r, &pool, &sp, 12)).collect();
        json!({ "!stages": stages, "texts": texts, "procs": pr, "special": sp })
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let stages = sc["!stages"].as_array().cloned().unwrap_or_default();
        let (procs, special) = (strs(&sc["procs"]), strs(&sc["special"]));
        let mut cur = String::new();
        let mut prev: Option<TokFile> = None;
        let mut done = 0;
        for (k, st) in stages.iter().enumerate() {
            let cmd = st["cmd"].as_str().unwrap_or("").to_string();
            if k == 0 && cmd != "generate" || k > 0 && prev.is_none() {
                break;
            }
            let inplace = st["inplace"] == true && k > 0;
            let out = if inplace { cur.clone() } else { format!("s{k}.json") };
            let mut a = args(&[&cmd, "-o", &out]);
            if k > 0 {
                a.extend(args(&["-i", &cur]));
            }
            // prepare() writes the other inputs; its own in.json is not wanted here
            let mut rest = st.clone();
            rest["inplace"] = json!(false);
            let mut p = prepare(c, &rest, &out);
            c.rm("in.json");
            p.drain(..3);
            if p.first().map(|s| s.as_str()) == Some("-i") {
                p.drain(..2);
            }
            a.extend(p);
            let fault = st["fault"].as_str().unwrap_or("none");
            let sim = with(&cfg_of(&st["sim"]), &[("fixseed", 1)]);
            let before = c.snapshot();
            let mut run = c.cli(&sim, &a, "info")?;
            if fault != "none" && run.ok() && run.hung().is_none() {
                let (steps, io) = (run.steps, run.io_ops);
                let size = c.get(&out).map_or(0, |b| b.len()) as u64;
                c.wipe();
                for (n, b) in &before {
                    c.put(n, b);
                }
                let at = st["at"].as_u64().unwrap_or(0);
                let place = |n: u64| 1 + at * n / 1_000_000;
                let pw = st["power"].as_u64().unwrap_or(0);
                let cfg = match fault {
                    "kill" => with(&sim, &[("crash", place(steps)), ("power", pw)]),
                    "kill_io" => with(&sim, &[("crashio", place(io)), ("power", pw)]),
                    "full" => with(&sim, &[("cap", at * size / 1_000_000)]),
                    _ => with(&sim, &[("ioarm", place(io)), ("eior", 500_000), ("eiow", 500_000), ("open", 500_000)]),
                };
                run = c.cli(&cfg, &a, "info")?;
                if !run.ok() {
                    c.probe(&format!("{cmd} interrupted"));
                    if run.hung().is_some() {
                        return Ok(Verdict::Skip("no end"));
                    }
                    // and again
                    run = c.cli(&cfg_of(&st["sim2"]), &a, "info")?;
                    if !run.ok() && inplace {
                        let now = c.get(&cur);
                        if now != before.get(&cur).cloned() {
                            return Ok(Verdict::Skip("an interrupted command destroyed the file it was replacing"));
                        }
                    }
                }
            }
            if run.hung().is_some() {
                return Ok(Verdict::Skip("no end"));
            }
            if !run.ok() {
                if run.panic_line().contains("f64::NaN") {
                    return Ok(Verdict::Skip("degenerate statistics"));
                }
                return Err(viol("failed", format!("stage {k} ({cmd}) ends with {} on what the stage before it wrote: {}", run.status(), clip(&run.panic_line(), 200))));
            }
            // what this stage hands on
            let what = format!("stage {k} ({cmd})");
            let (f, _) = parse_file(&c.get(&out).unwrap_or_default()).map_err(|e| viol("unloadable", format!("{what} exits 0, but its output does not load: {e}")))?;
            ensure!(f.special == special, "special", "{what}: special tokens {:?}, configured {special:?}", f.special);
            ensure!(f.procs == procs, "processors", "{what}: processors {:?}, configured {procs:?}", f.procs);
            let mut seen = HashSet::new();
            for t in &f.vocab {
                ensure!(seen.insert(&t.v), "duplicate", "{what}: token {:?} appears twice", String::from_utf8_lossy(&t.v));
                ensure!(t.s.is_finite(), "score", "{what}: token {:?} has score {}", String::from_utf8_lossy(&t.v), t.s);
            }
            for b in (0..=255u8).filter(|b| utf8_byte(*b)) {
                ensure!(seen.contains(&vec![b]), "bytes", "{what}: byte {b:#04x} is missing");
            }
            if k == 0 {
                for t in strs(&st["added"]) {
                    if let Some(x) = f.vocab.iter().find(|x| x.v == t.as_bytes()) {
                        ensure!(x.keep, "protection", "{what}: added token {t:?} is not protected");
                    }
                }
            } else if let Some(p) = &prev {
                for t in p.vocab.iter().filter(|t| t.keep) {
                    ensure!(f.vocab.iter().any(|x| x.v == t.v && x.keep), "protection", "{what}: protected token {:?} is lost", String::from_utf8_lossy(&t.v));
                }
                // an interrupted stage that replaces its own input may have run twice
                if !inplace || fault == "none" {
                    match cmd.as_str() {
                        "prune" => judge_prune(&p.vocab, &f.vocab, usize::MAX.min(opt_n(st, &["-v"], 0)))?,
                        "merge" => {
                            let pv: Vec<_> = f.vocab[..p.vocab.len().min(f.vocab.len())].to_vec();
                            // scores pass through text
                            let same = pv.len() == p.vocab.len() && pv.iter().zip(&p.vocab).all(|(a, b)| a.v == b.v && a.keep == b.keep && near(a.s, b.s));
                            ensure!(same, "changed", "{what}: tokens that were there changed");
                            judge_merge(&pv, &f.vocab, opt_n(st, &["--num-merges"], 1000))?;
                        }
                        _ => {
                            for t in &f.vocab {
                                ensure!(p.vocab.iter().any(|x| x.v == t.v && x.keep == t.keep && near(x.s, t.s)), "invented", "{what}: {:?} was not in its input", String::from_utf8_lossy(&t.v));
                            }
                        }
                    }
                }
            }
            prev = Some(f);
            cur = out;
            done += 1;
        }
        let Some(f) = prev else { return Ok(Verdict::Skip("no stage")) };
        // the tokenizer the pipeline made, in the real library
        let texts = strs(&sc["texts"]);
        let mut ops = vec![json!({"op": "load", "path": cur}), json!({"op": "sizes"})];
        for t in &texts {
            ops.push(json!({"op": "encode_ordinary", "text": t}));
            ops.push(json!({"op": "encode", "text": t}));
        }
        let (run, res) = c.driver(&cfg_of(&stages[0]["sim2"]), &json!(ops))?;
        alive(&run, &res, ops.len())?;
        okv(&res[0], "load")?;
        ensure!(res[1]["ok"][1] == json!(f.vocab.len()), "unloadable", "{} tokens written, {} loaded", f.vocab.len(), res[1]);
        let rf = Ref::new(&f);
        let mut dec = vec![json!({"op": "load", "path": cur})];
        let mut want = vec![];
        for (i, t) in texts.iter().enumerate() {
            for (k, ord) in [(0, true), (1, false)] {
                let r = &res[2 + 2 * i + k];
                let Some(ids) = r.get("ok").and_then(ids_of) else {
                    return Err(viol("encode", format!("{:?} is not encoded: {}", clip(t, 80), clip(&r.to_string(), 120))));
                };
                let nv = f.vocab.len() + f.special.len();
                ensure!(ids.iter().all(|i| (*i as usize) < nv), "encode", "id outside the vocabulary of {nv}: {ids:?}");
                let w = if ord {
                    preprocess(&procs, t)
                } else {
                    rf.split(t).iter().map(|p| match p {
                        Piece::Text(t) => preprocess(&procs, t),
                        Piece::Special(i) => f.special[*i].clone(),
                    }).collect::<String>()
                };
                dec.push(json!({"op": "decode", "ids": ids, "special": true}));
                want.push(w);
            }
        }
        let (run, res) = c.driver(&cfg_of(&stages[0]["sim2"]), &json!(dec))?;
        alive(&run, &res, dec.len())?;
        for (w, r) in want.iter().zip(&res[1..]) {
            ensure!(r["ok"].as_str() == Some(w), "lossy", "{:?} comes back as {}", clip(w, 100), clip(&r.to_string(), 140));
        }
        c.probe(&format!("pipeline of {done} stages"));
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one fault or short or interrupted call, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool and the real library, as compiled from /repo", "the kernel's file, thread, lock, clock, entropy and memory interface with its faults, page cache and power loss is simulated below libc; files live on a scratch tmpfs; the output of a stage that finished is durable before the next one starts")
    }
}
