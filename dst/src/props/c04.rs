//! Failed and interrupted saves and loads.
use super::c03::{compare, compare_exact, of_dump};
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::tgx::{parse_file, Tok, TokFile};
use crate::util::*;
use serde_json::json;

pub struct C04;

fn small(r: &mut Rng, pool: &[String], n: usize) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    if r.chance(50) {
        v = bytes_vocab(r, true);
    }
    for t in tokens(r, pool, n, false) {
        let s = score(r);
        v.push(Tok { v: t, s, keep: r.chance(20) });
    }
    v
}
impl C04 {
    /// Several clients, each of which saves a tokenizer of its own to a path of its own, at the same time.
    fn gen_many(r: &mut Rng, pool: &[String], mut sim: serde_json::Map<String, Value>) -> Value {
        let paths = *r.pick(&[["a.json", "b.json", "c.json"], ["a", "a.json", "a.json.json"], ["d/a.json", "d/b.json", "a.json"], ["a.json", "A.json", "a.tok"]]);
        let n = r.range(2, 3);
        let toks: Vec<Value> = (0..n)
            .map(|_| {
                let k = *r.pick(&[1usize, 5, 20, 60]);
                json!({"vocab": toks_json(&small(r, pool, k)), "special": specials(r, 2), "procs": procs(r)})
            })
            .collect();
        match r.below(5) {
            0 => {
                sim.insert("eiow".into(), json!(*r.pick(&[100_000u64, 400_000])));
            }
            1 => {
                sim.insert("open".into(), json!(300_000));
            }
            _ => {}
        }
        json!({"kind": "many", "toks": toks, "paths": paths[..n], "times": r.range(1, 3), "crash": if r.chance(30) { 1 + r.below(1_000_000) } else { 0 }, "power": r.below(2), "sim": sim})
    }
    fn many(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let clean = seq(5);
        let sim = with(&cfg_of(&sc["sim"]), &[("fixseed", 1)]);
        let toks: Vec<TokFile> = sc["toks"].as_array().map(|a| a.iter().map(|t| {
            let mut f = tokfile(t);
            f.vocab.retain(|t| !t.v.is_empty());
            f
        }).collect()).unwrap_or_default();
        let paths = strs(&sc["paths"]);
        let n = toks.len().min(paths.len());
        let times = sc["times"].as_u64().unwrap_or(1).clamp(1, 5) as usize;
        let mut ops: Vec<Value> = (0..n).map(|i| new_op(i as u64, &toks[i])).collect();
        let threads: Vec<Value> = (0..n).map(|i| json!((0..times).map(|_| json!({"op": "save", "slot": i, "path": paths[i]})).collect::<Vec<_>>())).collect();
        ops.push(json!({"op": "par", "threads": threads}));
        if paths.iter().any(|p| p.starts_with("d/")) {
            c.put("d/other", b"");
        }
        let mut cfg = sim.clone();
        let crash = sc["crash"].as_u64().unwrap_or(0);
        if crash > 0 {
            let (pilot, _) = c.driver(&sim, &json!(ops))?;
            let f = pilot.first_wopen_step;
            cfg = with(&cfg, &[("crash", f + 1 + crash.saturating_mul(pilot.steps.saturating_sub(f).max(1)) / 1_000_000), ("power", sc["power"].as_u64().unwrap_or(0))]);
            c.wipe();
            if paths.iter().any(|p| p.starts_with("d/")) {
                c.put("d/other", b"");
            }
        }
        let (run, res) = c.driver(&cfg, &json!(ops))?;
        if let Some(h) = run.hung() {
            return Err(viol("hang", h));
        }
        ensure!(run.signal.is_none(), "died", "{}: {}", run.status(), run.panic_line());
        if !run.crashed() {
            alive(&run, &res, ops.len())?;
        }
        // what was not synced may be lost
        let powered = run.fault("power_loss") > 0;
        for i in 0..n {
            let mut saved = false;
            let mut failed = false;
            if let Some(r) = res.get(n).and_then(|r| r["par"][i].as_array()) {
                for v in r {
                    ensure!(v.get("panic").is_none(), "panic", "save: {v}");
                    saved = v.get("ok").is_some();
                    failed |= !saved;
                    ensure!(saved || Self::is_error(v, false), "silent-failure", "save: {}", clip(&v.to_string(), 150));
                }
            }
            let l = json!([{"op": "load", "path": paths[i]}, {"op": "dump"}]);
            let (run, res) = c.driver(&clean, &l)?;
            alive(&run, &res, 2)?;
            ensure!(res[0].get("panic").is_none(), "panic", "loading: {}", clip(&res[0].to_string(), 200));
            if res[0].get("ok").is_some() {
                let g = of_dump(okv(&res[1], "dump")?).ok_or_else(|| viol("different", "sizes disagree with the tokens"))?;
                compare(&toks[i], &g, false, "").map_err(|e| viol("different", format!("{} loads as a tokenizer that was not saved to it: {e:?}", paths[i])))?;
            } else {
                ensure!(!saved || powered, "silent-failure", "save to {} reported success, but it cannot be loaded: {}", paths[i], clip(&res[0].to_string(), 150));
            }
            if !failed && saved {
                c.probe("saved while others save");
            }
        }
        Ok(Verdict::Pass)
    }
    fn is_error(v: &Value, python: bool) -> bool {
        v.get("panic").is_none() && if python { v["err"] == "tokengeex" || v["err"] == "os" } else { v["err"] == "io" || v["err"] == "json" || v["err"] == "save" }
    }
}
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Value {
        let pool = pool(r);
        let n = if r.chance(6) { 1200 } else { 20 };
        let new = small(r, &pool, n);
        let special = super::c03::odd_special(r);
        let on = r.range(1, 40);
        let old = match r.below(5) {
            0 => Value::Null,
            1 => json!("garbage ".repeat(r.range(1, 2000))),
            _ => json!(TokFile { vocab: small(r, &pool, on), special: specials(r, 2), procs: procs(r) }.to_json()),
        };
        let mut sim = sched(r);
        benign(r, &mut sim);
        if r.chance(10) {
            return Self::gen_many(r, &pool, sim);
        }
        let kind = *r.pick(&["save", "save", "save", "save", "save", "load", "load", "cut", "cut"]);
        let mut sc = json!({"kind": kind, "vocab": toks_json(&new), "procs": procs(r), "special": special, "!old": old, "python": r.chance(20), "at": r.below(1_000_000)});
        if kind == "save" {
            let m = sc.as_object_mut().unwrap();
            match r.below(9) {
                0 => {
                    sim.insert("eiow".into(), json!(*r.pick(&[100_000u64, 1_000_000])));
                }
                1 => {
                    sim.insert("eiow".into(), json!(*r.pick(&[100_000u64, 400_000])));
                    sim.insert("swrite".into(), json!(900_000));
                }
                2 | 3 => {
                    m.insert("fault".into(), json!("full"));
                }
                4 => {
                    sim.insert("open".into(), json!(1_000_000));
                }
                5 | 6 => {
                    m.insert("fault".into(), json!("kill"));
                    m.insert("power".into(), json!(r.below(2)));
                    sim.insert("swrite".into(), json!(*r.pick(&[0u64, 500_000, 900_000])));
                }
                7 => {
                    m.insert("fault".into(), json!("kill_step"));
                    m.insert("power".into(), json!(r.below(2)));
                }
                _ => {
                    // anything that renames or syncs has to notice too
                    sim.insert("rename".into(), json!(1_000_000));
                    sim.insert("fsync".into(), json!(*r.pick(&[0u64, 1_000_000])));
                }
            }
        } else if kind == "load" {
            match r.below(4) {
                0 => {
                    sim.insert("open".into(), json!(1_000_000));
                }
                1 => {
                    sim.insert("eior".into(), json!(1_000_000));
                }
                _ => {
                    sim.insert("eior".into(), json!(300_000));
                    sim.insert("sread".into(), json!(800_000));
                }
            }
        }
        sc["sim"] = Value::Object(sim);
        if kind == "save" && r.chance(30) {
            // saved before, more than once
            let v: Vec<Value> = (0..r.range(1, 3))
                .map(|_| {
                    let n = r.range(1, 40);
                    json!({"vocab": toks_json(&small(r, &pool, n)), "special": specials(r, 2), "procs": procs(r)})
                })
                .collect();
            sc["prior"] = json!(v);
        }
        if kind == "save" && r.chance(60) {
            let n = *r.pick(&[1usize, 2, 10, 60]);
            sc["next"] = json!({"vocab": toks_json(&small(r, &pool, n)), "special": specials(r, 2), "procs": procs(r)});
        }
        sc
    }
    fn pinned(&self) -> Vec<Value> {
        // one error of each kind, in both languages
        let v = toks_json(&[Tok { v: b"a".to_vec(), s: -1.0, keep: true }, Tok { v: b"ab".to_vec(), s: -2.0, keep: false }]);
        let mut out = vec![];
        for py in [false, true] {
            for (kind, sim) in [("save", "eiow"), ("save", "open"), ("load", "eior"), ("load", "open"), ("cut", "tick")] {
                let mut s = json!({"seed": 3, "mode": 0, "threads": 1, "ncpu": 1, "tick": 1000});
                s[sim] = json!(1_000_000);
                out.push(json!({"kind": kind, "vocab": v, "procs": ["nfc"], "special": ["<s>"], "!old": "garbage", "python": py, "at": 500_000, "sim": s}));
            }
        }
        out
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        if sc["kind"] == "many" {
            return self.many(sc, c);
        }
        let sim = with(&cfg_of(&sc["sim"]), &[("fixseed", 1)]);
        let clean = seq(5);
        let mut f = tokfile(sc);
        f.vocab.retain(|t| !t.v.is_empty());
        let py = sc["python"] == true;
        let at = sc["at"].as_u64().unwrap_or(0);
        let place = |n: u64| 1 + at.saturating_mul(n) / 1_000_000;
        let text = f.to_json();
        let mut ops = vec![];
        if py {
            ops.push(json!({"op": "from_str", "json": text}));
        } else {
            ops.push(new_op(0, &f));
        }
        match sc["kind"].as_str().unwrap_or("") {
            "save" => {
                let mut old = sc["!old"].as_str().map(|s| s.to_string());
                if let Some(o) = &old {
                    c.put("t.json", o.as_bytes());
                }
                c.put("other", b"another file");
                if let Some(prior) = sc["prior"].as_array().filter(|p| !p.is_empty()) {
                    // each by a process of its own
                    for p in prior {
                        let mut p = tokfile(p);
                        p.vocab.retain(|t| !t.v.is_empty());
                        let o = json!([start_op(py, 0, &p), {"op": "save", "path": "t.json"}]);
                        let (run, res) = if py { c.python(&clean, &o)? } else { c.driver(&clean, &o)? };
                        alive(&run, &res, 2)?;
                        okv(&res[1], "saving")?;
                        old = Some(p.to_json());
                    }
                    c.probe("saved before");
                }
                let disk = c.snapshot();
                let seed_disk = |c: &mut Ctx| {
                    c.wipe();
                    for (n, b) in &disk {
                        c.put(n, b);
                    }
                };
                ops.push(json!({"op": "save", "path": "t.json"}));
                let go = |c: &mut Ctx, s: &crate::sim::Cfg| if py { c.python(s, &json!(ops)) } else { c.driver(s, &json!(ops)) };
                let mut cfg = sim.clone();
                if let Some(fault) = sc["fault"].as_str() {
                    // the same execution without the fault shows where it can strike
                    seed_disk(c);
                    let (pilot, res) = go(c, &sim)?;
                    alive(&pilot, &res, ops.len())?;
                    let size = c.get("t.json").map_or(0, |b| b.len() as u64);
                    let p = sc["power"].as_u64().unwrap_or(0);
                    match fault {
                        "full" => cfg = with(&cfg, &[("cap", at * size / 1_000_000)]),
                        "kill" => {
                            let f = pilot.io_first_write.max(1);
                            let n = pilot.io_ops.max(f) + 1 - f;
                            cfg = with(&cfg, &[("crashio", f + place(n) - 1), ("power", p)]);
                        }
                        _ => {
                            let f = pilot.first_wopen_step;
                            cfg = with(&cfg, &[("crash", f + place(pilot.steps.saturating_sub(f).max(1))), ("power", p)]);
                        }
                    }
                }
                seed_disk(c);
                let (run, res) = go(c, &cfg)?;
                if let Some(h) = run.hung() {
                    return Err(viol("hang", h));
                }
                ensure!(run.signal.is_none(), "died", "{}: {}", run.status(), run.panic_line());
                let crashed = run.crashed();
                if !crashed {
                    alive(&run, &res, ops.len())?;
                }
                if let Some(v) = res.first() {
                    okv(v, "building the tokenizer")?;
                }
                let powered = run.fault("power_loss") > 0;
                if let Some(v) = res.get(1) {
                    ensure!(v.get("panic").is_none(), "panic", "save: {v}");
                    if v.get("ok").is_some() {
                        if !powered {
                            let b = c.get("t.json").unwrap_or_default();
                            let (w, t) = parse_file(&b).map_err(|e| viol("silent-failure", format!("save reported success, but the file does not hold the tokenizer: {e} ({} bytes)", b.len())))?;
                            compare_exact(&f, &w, &t, "save reported success").map_err(|v| match v {
                                Verdict::Violation(_, m) => viol("silent-failure", m),
                                v => v,
                            })?;
                        }
                        c.probe("save succeeded");
                    } else {
                        ensure!(Self::is_error(v, py), "silent-failure", "save: {}", clip(&v.to_string(), 150));
                        c.probe("save failed");
                    }
                } else if crashed {
                    c.probe("save cut short");
                }
                ensure!(c.get("other").as_deref() == Some(b"another file"), "other-file", "saving changed another file");
                // the next process to load it
                let (run, res) = c.driver(&clean, &json!([{"op": "load", "path": "t.json"}, {"op": "dump"}]))?;
                alive(&run, &res, 2)?;
                ensure!(res[0].get("panic").is_none(), "panic", "loading after the failed save: {}", clip(&res[0].to_string(), 200));
                if res[0].get("ok").is_some() {
                    let g = of_dump(okv(&res[1], "dump")?).ok_or_else(|| viol("different", "sizes disagree with the tokens"))?;
                    let is_new = compare(&f, &g, false, "").is_ok();
                    let is_old = old.as_ref().and_then(|o| parse_file(o.as_bytes()).ok()).map_or(false, |(o, _)| compare(&o, &g, false, "").is_ok());
                    ensure!(is_new || is_old, "different", "after the failed save the path loads as a third tokenizer with {} tokens", g.vocab.len());
                    c.probe(if is_new { "then: new" } else { "then: old" });
                } else {
                    c.probe("then: error");
                }
                // whatever was left behind, the next save succeeds
                let mut f = f;
                if sc["next"].is_object() {
                    f = tokfile(&sc["next"]);
                    f.vocab.retain(|t| !t.v.is_empty());
                }
                let o = json!([start_op(py, 0, &f), {"op": "save", "path": "t.json"}]);
                let (run, res) = if py { c.python(&clean, &o)? } else { c.driver(&clean, &o)? };
                alive(&run, &res, 2)?;
                okv(&res[1], "saving again after the failed save")?;
                let (run, res) = c.driver(&clean, &json!([{"op": "load", "path": "t.json"}, {"op": "dump"}]))?;
                alive(&run, &res, 2)?;
                okv(&res[0], "loading what was saved again")?;
                let g = of_dump(okv(&res[1], "dump")?).ok_or_else(|| viol("different", "sizes disagree with the tokens"))?;
                compare(&f, &g, false, "saved again after the failed save")?;
                c.probe("saved again after the fault");
                Ok(Verdict::Pass)
            }
            "load" => {
                c.put("t.json", text.as_bytes());
                let ops = json!([{"op": "load", "path": "t.json"}, {"op": "dump"}]);
                let (run, res) = if py { c.python(&sim, &ops)? } else { c.driver(&sim, &ops)? };
                if py && res.is_empty() && run.code == Some(1) && run.hung().is_none() {
                    // the fault hit the interpreter's own files
                    return Ok(Verdict::Skip("interpreter did not start"));
                }
                alive(&run, &res, 2)?;
                ensure!(res[0].get("panic").is_none(), "panic", "load: {}", clip(&res[0].to_string(), 200));
                if res[0].get("ok").is_some() {
                    ensure!(run.fault("read_error") == 0 && run.fault("open_error") == 0, "silent-failure", "load succeeded although reading failed");
                    let g = of_dump(okv(&res[1], "dump")?).ok_or_else(|| viol("different", "sizes disagree with the tokens"))?;
                    compare(&f, &g, py, "load")?;
                    c.probe("load succeeded");
                } else {
                    ensure!(if py { res[0]["err"] == "tokengeex" } else { res[0]["err"] == "io" || res[0]["err"] == "json" }, "wrong-error", "load: {}", clip(&res[0].to_string(), 200));
                    if run.fault("read_error") == 0 && run.fault("open_error") == 0 {
                        return Err(viol("load-failed", format!("load failed without a fault: {}", clip(&res[0].to_string(), 200))));
                    }
                    c.probe("load failed");
                }
                Ok(Verdict::Pass)
            }
            _ => {
                let n = text.len() as u64;
                let cut = (at * n / 1_000_000) as usize;
                let cut = if at % 7 == 0 { text.len() - 1 - (at as usize / 7) % text.len().min(40) } else { cut };
                c.put("t.json", &text.as_bytes()[..cut]);
                let mut ops = vec![json!({"op": "load", "path": "t.json"})];
                if let Some(s) = text.get(..cut) {
                    ops.push(json!({"op": "from_str", "json": s, "slot": 1}));
                }
                let (run, res) = if py { c.python(&sim, &json!(ops))? } else { c.driver(&sim, &json!(ops))? };
                alive(&run, &res, ops.len())?;
                for v in &res {
                    ensure!(v.get("panic").is_none(), "panic", "loading {cut} of {n} bytes: {}", clip(&v.to_string(), 200));
                    ensure!(if py { v["err"] == "tokengeex" } else { v["err"] == "io" || v["err"] == "json" }, "silent-failure", "loading {cut} of {n} bytes: {}", clip(&v.to_string(), 200));
                }
                c.probe("truncated files");
                Ok(Verdict::Pass)
            }
        }
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one fault or short or interrupted call, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the library's save and load code, and the real Python binding in a real CPython interpreter", "client programs; the kernel's file interface with its faults, page cache and power loss is simulated below libc")
    }
}
