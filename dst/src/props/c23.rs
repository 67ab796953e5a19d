//! Evaluation: every sample of every file counted once, or failure.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;

pub struct C23;
const NAMES: &[&str] = &["go", "python", "c-sharp", "Rust", "c++", "train", "infilling", "chinese-markdown", "a b", "\u{e9}t\u{e9}"];
/// Beside the files that are evaluated.
const OTHERS: &[(&str, &[u8])] = &[("data/notes.txt", b"not evaluated"), ("data/sub/go.bin", b"nor\0this"), ("other/go.bin", b"nor that"), ("log.txt", b"not to be touched")];

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let pool = pool(r);
        let n = if r.chance(30) { r.range(50, 200) } else { r.range(3, 40) };
        let vocab = vocab(r, &pool, n, true);
        let mut names = NAMES.to_vec();
        r.shuffle(&mut names);
        let nf = *r.pick(&[1usize, 1, 2, 3, 5]);
        let files: Vec<Value> = (0..nf)
            .map(|i| {
                let k = if r.chance(15) { r.range(20, if thorough { 400 } else { 120 }) } else { r.range(1, 8) };
                let mut s: Vec<String> = (0..k).map(|_| text(r, &pool, 10)).collect();
                let at = r.below(s.len());
                s[at] += r.pick(&pool);
                if r.chance(30) {
                    s.push(String::new());
                }
                if r.chance(25) {
                    // the same ends, another middle
                    let long: Vec<char> = (0..4).map(|_| text(r, &pool, 30)).collect::<String>().chars().take(400).collect();
                    for _ in 0..r.range(1, 4) {
                        let (mut x, n) = (long.clone(), long.len());
                        if r.chance(50) {
                            x[n / 4..n - n / 4].reverse();
                        } else {
                            r.shuffle(&mut x[n * 2 / 5..n - n * 2 / 5]);
                        }
                        let at = r.below(s.len() + 1);
                        s.insert(at, x.into_iter().collect());
                    }
                }
                if r.chance(4) {
                    // counts over 15 and 16 bits
                    return json!({"name": names[i], "samples": [r.pick(&pool)], "join": *r.pick(&[40_000, 70_000]), "ext": "bin"});
                }
                let copies = if r.chance(6) { r.range(50, 1500) } else { 1 };
                json!({"name": names[i], "samples": s, "copies": copies, "ext": *r.pick(&["bin", "bin", "test.bin"])})
            })
            .collect();
        let mut sim = sched(r);
        sim.remove("threads");
        if r.chance(50) {
            benign(r, &mut sim);
        }
        let fault = *r.pick(&["none", "none", "none", "io", "full", "read", "open", "late", "late_read", "kill", "kill", "killio", "killio", "utf8", "vocab"]);
        match fault {
            "io" => {
                sim.insert("eiow".into(), json!(*r.pick(&[300_000u64, 1_000_000])));
            }
            "open" => {
                sim.insert("open".into(), json!(*r.pick(&[100_000u64, 400_000])));
            }
            "read" => {
                sim.insert("eior".into(), json!(*r.pick(&[100_000u64, 400_000])));
            }
            _ => {}
        }
        json!({
            "vocab": toks_json(&vocab), "procs": procs(r), "special": specials(r, 3), "files": files,
            "old": r.chance(40), "fault": fault, "at": r.below(1_000_000), "which": r.below(100), "sim": sim,
            "switch": *r.pick(&[0.005, 0.005, 0.0005, 0.00005]),
        })
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let sim = with(&cfg_of(&sc["sim"]), &[("fixseed", 1)]);
        let fault = sc["fault"].as_str().unwrap_or("none");
        let none = vec![];
        let mut files: BTreeMap<String, (String, Vec<u8>, Vec<String>)> = BTreeMap::new();
        for f in sc["files"].as_array().unwrap_or(&none) {
            let name = f["name"].as_str().unwrap_or("").to_string();
            let samples = samples_of(f);
            if name.is_empty() || name.contains(['.', '/', '\0']) || samples.iter().any(|s| s.contains('\0')) || samples.iter().all(|s| s.is_empty()) {
                return Ok(Verdict::Skip("no tokens"));
            }
            let path = format!("data/{name}.{}", f["ext"].as_str().unwrap_or("bin"));
            let b = samples.join("\0").into_bytes();
            if files.insert(name, (path, b, samples)).is_some() {
                return Ok(Verdict::Skip("a name twice"));
            }
        }
        if files.is_empty() {
            return Ok(Verdict::Skip("no files"));
        }
        // what the library gives for each sample
        let f = tokfile(sc);
        let mut ops = vec![new_op(0, &f), json!({"op": "sizes", "slot": 0})];
        for (_, _, samples) in files.values() {
            let mut distinct: Vec<&String> = samples.iter().collect();
            distinct.sort();
            distinct.dedup();
            ops.extend(distinct.iter().map(|s| json!({"op": "encode", "slot": 0, "text": s})));
        }
        let (run, res) = c.driver(&seq(3), &json!(ops))?;
        alive(&run, &res, ops.len())?;
        let size = f.vocab.len() + f.special.len();
        let mut ids: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (o, r) in ops.iter().zip(&res).skip(2) {
            let v = okv(r, "encode")?.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            ids.insert(o["text"].as_str().unwrap().to_string(), v);
        }
        let mut freq = vec![0u64; size];
        let mut want: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
        for (name, (_, _, samples)) in &files {
            let (mut t, mut ch) = (0, 0);
            for s in samples {
                t += ids[s].len() as u64;
                ch += s.chars().count() as u64;
                for i in &ids[s] {
                    freq[*i] += 1;
                }
            }
            if t == 0 {
                return Ok(Verdict::Skip("no tokens"));
            }
            want.insert(name, (t, ch));
        }
        freq.sort_by(|a, b| b.cmp(a));
        let part = size / 50;
        let buckets: Vec<u64> = (0..50).map(|i| freq[i * part..(i + 1) * part].iter().sum()).collect();
        let old = br#"{"vocab_size": 1, "compression": {"gone": {"num_tokens": 3, "num_chars": 6, "chars_per_token": 2.0}}, "frequency_buckets": [3]}"#;
        let setup = |c: &mut Ctx| {
            c.wipe();
            c.put("vocab/v.json", f.to_json().as_bytes());
            for (p, b, _) in files.values() {
                c.put(p, b);
            }
            for (n, b) in OTHERS {
                c.put(n, b);
            }
            c.put("log/keep", b"");
            if sc["old"] == true {
                c.put("log/v.json", old);
            }
        };
        let a = args(&["-l", "tokengeex", "-f", "vocab/v.json", "-i", "data/*.bin", "-o", "log/v.json"]);
        // a thread that waits for the interpreter gives the others time to run
        let switch = sc["switch"].as_f64().unwrap_or(0.005).max(crate::sim::cfg_u(&sim, "tick", 1000) as f64 * 60e-9);
        let complete = |b: &[u8]| -> Result<(), String> {
            let v: Value = serde_json::from_slice(b).map_err(|e| format!("the log of {} bytes is cut short or no JSON: {e}", b.len()))?;
            if v["vocab_size"] != json!(size) {
                return Err(format!("vocab_size {}, the tokenizer has {size}", v["vocab_size"]));
            }
            let empty = serde_json::Map::new();
            let m = v["compression"].as_object().unwrap_or(&empty);
            let (a, b): (Vec<&str>, Vec<&str>) = (m.keys().map(|k| k.as_str()).collect(), want.keys().copied().collect());
            let (mut a2, mut b2) = (a.clone(), b.clone());
            a2.sort();
            b2.sort();
            if a2 != b2 {
                return Err(format!("files {a2:?}, expected {b2:?}"));
            }
            for (k, (t, ch)) in &want {
                let x = &m[*k];
                if x["num_tokens"] != json!(t) || x["num_chars"] != json!(ch) {
                    return Err(format!("{k}: {} tokens and {} characters, expected {t} and {ch}", x["num_tokens"], x["num_chars"]));
                }
                let q = *ch as f64 / *t as f64;
                if !x["chars_per_token"].as_f64().map_or(false, |y| (y - q).abs() < 0.005001) {
                    return Err(format!("{k}: {} characters per token, expected {q:.4}", x["chars_per_token"]));
                }
            }
            let got: Vec<u64> = v["frequency_buckets"].as_array().unwrap_or(&none).iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
            if got != buckets {
                let at = got.iter().zip(&buckets).take_while(|(a, b)| a == b).count();
                return Err(format!("{} frequency buckets, bucket {at} holds {:?}, expected {:?}", got.len(), got.get(at), buckets.get(at)));
            }
            Ok(())
        };
        let judge = |c: &mut Ctx, run: &Run, faulty: bool, must_fail: bool| -> Result<bool, Verdict> {
            if !run.crashed() {
                if let Some(e) = bad_end(run) {
                    return Err(viol("hang", e));
                }
            }
            let now = c.snapshot();
            let mut inputs: Vec<(&str, &[u8])> = OTHERS.to_vec();
            if !must_fail {
                inputs.extend(files.values().map(|(p, b, _)| (p.as_str(), b.as_slice())));
            }
            for (n, b) in inputs {
                ensure!(now.get(n).map(|x| x.as_slice()) == Some(b), "other-file", "{n} was changed or removed");
            }
            let log = now.get("log/v.json");
            if run.ok() {
                ensure!(!must_fail, "silent", "exit status 0 though an input cannot be read");
                let log = log.ok_or_else(|| viol("missing", "exit status 0 without a log".to_string()))?;
                complete(log).map_err(|e| viol("log", format!("exit status 0, but {e}")))?;
                for n in now.keys() {
                    let known = n == "log/v.json" || n == "vocab/v.json" || n == "log/keep" || OTHERS.iter().any(|o| o.0 == n) || files.values().any(|f| f.0 == *n);
                    ensure!(known, "other-file", "exit status 0 and leaves {n}");
                }
                return Ok(true);
            }
            ensure!(faulty || must_fail, "failed", "evaluation ends with {} though nothing failed: {}", run.status(), clip(&run.panic_line(), 200));
            if let Some(l) = log {
                ensure!(sc["old"] == true && l == old || complete(l).is_ok(), "partial", "evaluation ends with {} and leaves {} bytes of a log", run.status(), l.len());
            }
            Ok(false)
        };
        setup(c);
        let mut cfg = sim.clone();
        let mut must_fail = false;
        let which = sc["which"].as_u64().unwrap_or(0) as usize % files.len();
        match fault {
            "kill" | "killio" | "late" | "late_read" | "full" => {
                let pilot = c.evaluate(&sim, &a, switch)?;
                judge(c, &pilot, false, false)?;
                let len = c.get("log/v.json").map_or(0, |l| l.len() as u64);
                let at = sc["at"].as_u64().unwrap_or(0);
                let place = |n: u64| 1 + at * n / 1_000_000;
                setup(c);
                cfg = match fault {
                    // half of the kills fall after the log was opened
                    "kill" => with(&cfg, &[("crash", if at % 2 == 0 { place(pilot.steps) } else { pilot.first_wopen_step + place(pilot.steps.saturating_sub(pilot.first_wopen_step)) })]),
                    "killio" => with(&cfg, &[("crashio", place(pilot.io_ops))]),
                    "full" => with(&cfg, &[("cap", at * len / 1_000_000)]),
                    "late" => with(&cfg, &[("ioarm", place(pilot.io_ops)), ("eiow", 700_000), ("open", 700_000)]),
                    _ => with(&cfg, &[("ioarm", place(pilot.io_ops)), ("eior", 700_000)]),
                };
            }
            "utf8" => {
                // somewhere in one of the files
                let (p, b, _) = files.values().nth(which).unwrap();
                let mut b = b.clone();
                let at = sc["at"].as_u64().unwrap_or(0) as usize * (b.len() + 1) / 1_000_000;
                b.insert(at.min(b.len()), 0xff);
                c.put(p, &b);
                must_fail = true;
            }
            "vocab" => {
                let b = f.to_json();
                c.put("vocab/v.json", &b.as_bytes()[..sc["at"].as_u64().unwrap_or(0) as usize * b.len() / 1_000_000]);
                must_fail = true;
            }
            _ => {}
        }
        let run = c.evaluate(&cfg, &a, switch)?;
        let struck = run.crashed() || ["read_error", "write_error", "disk_full", "open_error"].iter().any(|f| run.fault(f) > 0);
        let done = judge(c, &run, struck, must_fail)?;
        c.probe(if done { "complete" } else if run.crashed() { "killed" } else { "fails" });
        if !done && !must_fail && sc["old"] != true {
            // as scripts/evaluate.sh does: only where the log is missing
            if c.get("log/v.json").is_none() {
                let again = c.evaluate(&seq(7), &a, 0.005)?;
                judge(c, &again, false, false)?;
                c.probe("run again after a failure");
            } else {
                c.probe("complete though killed");
            }
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one fault or short or interrupted call, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real scripts/evaluate.py in a real Python interpreter with the real binding (numpy is a small stand-in, or the real one if the script needs more of it)", "the kernel's file, thread, lock, clock and entropy interface with its faults is simulated below libc; files live on a scratch tmpfs")
    }
}
