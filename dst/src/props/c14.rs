//! Loading training data: exactly the samples configured, or failure.
use super::c06::judge;
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::parse_file;
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;

pub struct C14;
/// What a sample is known by; at its edges, with what may stand there.
const MARK: &str = r"(?s)^[\x{feff}\s]?s[0-9]+.{0,3}x\s?$";
const FIND: &str = r"(?s)[\x{feff}\s]?s[0-9]+[^x]{0,3}x\s?";

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let cmd = if r.chance(25) { "mine" } else { "generate" };
        let n = match r.below(50) {
            0 | 1 => r.range(13, 80),
            2..=10 => r.range(4, 12),
            _ => r.range(1, 3),
        };
        let mut id = 0;
        let mut sources = vec![];
        let big = r.chance(if thorough { 15 } else { 8 });
        for s in 0..n {
            let k = match r.below(10) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => r.range(20, 200),
                _ => r.range(2, 20),
            };
            let mut samples = vec![];
            let k = if n > 12 { k.min(4) } else { k };
            for _ in 0..k {
                let mid = *r.pick(&["", "", "", "é", "e\u{301}", "\r\n", "ﬁ", "\n", "\r", "你", "²"]);
                let mut t = format!("s{id}{mid}x");
                if r.chance(30) {
                    t = format!("pad {t}, {}", ["", "\r\n", "end", "é"][r.below(4)]);
                }
                match r.below(24) {
                    0 => t.insert(0, '\u{feff}'),
                    1 => t.insert_str(0, r.pick(&[" ", "\n", "\r\n", "\u{a0}", "\u{2028}"])),
                    2 => t.push_str(r.pick(&[" ", "\n", "\r\n", "\u{a0}", "\u{feff}"])),
                    3 => samples.push(r.pick(&[" ", "\n", "\u{feff}", "\u{3000}", "\r\n", "\t"]).to_string()),
                    _ => {}
                }
                if big && r.chance(30) {
                    t += &" filler".repeat(r.range(100, 2500));
                }
                id += 1;
                samples.push(t);
                // nothing between two NULs
                if r.chance(10) {
                    samples.push(String::new());
                }
            }
            if r.chance(20) {
                samples.insert(0, String::new());
            }
            if r.chance(20) {
                samples.push(String::new());
            }
            if s > 0 && r.chance(15) {
                // the same data twice
                if let Some(Value::Array(a)) = sources.first().map(|x: &Value| x["samples"].clone()) {
                    samples = strs(&json!(a));
                }
            }
            let mut v = json!({ "samples": samples });
            if r.chance(60) {
                v["prop"] = json!(*r.pick(&["1", "1.0", "0.5", "0.25", "0.75", "0.1", "0.33", "0.9", "0.999", "0.01", "0", "2", "1.5", "0.7", "0.2", "0.3", "0.6", "0.35", ".5", "1e-1", "0.7000000001"]));
            }
            if r.chance(25) {
                // names are for the logs only
                v["name"] = json!(*r.pick(&["n", "n", "", "Ä", "a b", "n0", "n1", "train1.bin"]));
            }
            if s > 0 && r.chance(12) {
                // the same file once more
                let k = r.below(s);
                v["samples"] = sources[k]["samples"].clone();
                v["same"] = json!(true);
            }
            sources.push(v);
        }
        let mut sim = sched(r);
        let fault = *r.pick(&["none", "benign", "benign", "eintr", "eio", "eio_late", "open", "missing", "invalid", "prop", "short"]);
        match fault {
            "benign" => benign(r, &mut sim),
            "short" => {
                sim.insert("sread".into(), json!(950_000));
                sim.insert("eintr".into(), json!(300_000));
            }
            "eintr" => {
                sim.insert("eintr".into(), json!(500_000));
            }
            "eio" => {
                sim.insert("eior".into(), json!(*r.pick(&[20_000u64, 100_000, 400_000])));
                sim.insert("sread".into(), json!(600_000));
            }
            "open" => {
                sim.insert("open".into(), json!(200_000));
            }
            _ => {}
        }
        let (mut cmd, mut fault) = (cmd, fault);
        if r.chance(3) {
            // a source of many MiB
            let k = r.below(sources.len());
            sources[k]["lead"] = json!(*r.pick(&[65u64, 130, 130, 270, 540]));
            if r.chance(40) {
                // characters at all borders
                sources[k]["lead"] = json!(*r.pick(&[33u64, 65, 130]));
                sources[k]["rich"] = json!(true);
            }
            if let Some(m) = sources[k].as_object_mut() {
                m.remove("same");
                if r.chance(60) {
                    m.remove("prop");
                }
            }
            cmd = "mine";
            fault = "none";
            for k in ["sread", "eintr", "eior", "open", "swrite"] {
                sim.remove(k);
            }
        }
        let mut sc = json!({"cmd": cmd, "sources": sources, "!fault": fault, "!which": r.below(1000), "!at": r.below(1_000_000), "sim": sim});
        if cmd == "generate" {
            let p = procs(r);
            sc["procs"] = json!(p);
            sc["special"] = json!([]);
            sc["allow"] = json!(MARK);
            sc["added"] = json!(["anchor"]);
            if big || r.chance(20) {
                sc["split"] = json!(FIND);
            }
            sc["!opts"] = json!(args(&["-v", "100000", "--insert-probability", "1", "--max-token-length", "24"]));
        } else {
            sc["patterns"] = json!([FIND]);
            sc["!opts"] = json!(args(&["-n", "1000000"]));
        }
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let procs = strs(&sc["procs"]);
        let cmd = sc["cmd"].as_str().unwrap_or("");
        let fault = sc["!fault"].as_str().unwrap_or("none");
        let nsrc = sc["sources"].as_array().map_or(0, |a| a.len());
        if nsrc == 0 {
            return Ok(Verdict::Skip("no sources"));
        }
        // a product that is whole but for rounding
        for s in sc["sources"].as_array().unwrap() {
            let n = strs(&s["samples"]).iter().flat_map(|x| x.split('\0').map(|s| !s.is_empty()).collect::<Vec<_>>()).filter(|x| *x).count() as f64;
            let x = n * s["prop"].as_str().and_then(|p| p.parse::<f64>().ok()).unwrap_or(1.0);
            if x < x.round() && x.round() - x < 1e-9 {
                return Ok(Verdict::Skip("the fraction is whole but for rounding"));
            }
        }
        let src = loaded(&sc["sources"], &procs);
        let mut a = prepare(c, sc, "out.json");
        let mut sim = cfg_of(&sc["sim"]);
        let which = sc["!which"].as_u64().unwrap_or(0) as usize % nsrc;
        let file = source_file(&sc["sources"], which);
        let mut must_fail = false;
        match fault {
            "missing" => {
                c.rm(&file);
                must_fail = true;
            }
            "invalid" => {
                // broken UTF-8 inside a sample that is to be used
                let mut b = c.get(&file).unwrap_or_default();
                let used = src[which].len();
                if used == 0 {
                    return Ok(Verdict::Skip("no sample used"));
                }
                let at = b.iter().position(|x| *x != 0).unwrap_or(0);
                match sc["!at"].as_u64().unwrap_or(0) % 4 {
                    0 => b.insert(at, 0xff),
                    1 => b.splice(at..at, [0xc3, b'a']).for_each(drop),
                    2 => b.splice(at..at, [0xed, 0xa0, 0x80]).for_each(drop),
                    // a character cut off by the end of the sample
                    _ => {
                        let end = b[at..].iter().position(|x| *x == 0).map_or(b.len(), |k| at + k);
                        b.splice(end..end, [0xe4, 0xbd]).for_each(drop)
                    }
                }
                c.put(&file, &b);
                must_fail = true;
            }
            "prop" => {
                // not a number
                for x in a.iter_mut() {
                    if let Some((name, _)) = x.split_once(&format!(":{file}")) {
                        *x = format!("{name}:{file}:abc");
                    }
                }
                must_fail = true;
            }
            "eio_late" => {
                let files = c.snapshot();
                let pilot = c.cli(&with(&sim, &[("fixseed", 1)]), &a, "info")?;
                c.wipe();
                for (n, b) in files {
                    c.put(&n, &b);
                }
                let k = 1 + sc["!at"].as_u64().unwrap_or(0) * pilot.io_ops / 1_000_000;
                sim = with(&sim, &[("fixseed", 1), ("ioarm", k), ("eior", 1_000_000)]);
            }
            _ => {}
        }
        let before = c.snapshot();
        let run = c.cli(&sim, &a, "info")?;
        if let Some(e) = bad_end(&run) {
            return Err(viol("hang", e));
        }
        let struck = run.fault("read_error") + run.fault("open_error") > 0;
        if must_fail {
            ensure!(!run.ok(), "silent", "{cmd} exits 0 with source {file} {fault}");
            c.probe(&format!("fails: {fault}"));
            return Ok(Verdict::Pass);
        }
        if struck {
            ensure!(
                !run.ok(),
                "silent",
                "{cmd} exits 0 after {} read and {} open errors",
                run.fault("read_error"),
                run.fault("open_error")
            );
            ensure!(run.first_wopen_step != 0 || c.get("out.json").as_ref() == before.get("out.json"), "output", "output without writing");
            c.probe(&format!("fails: {fault}"));
            return Ok(Verdict::Pass);
        }
        if !run.ok() {
            return Err(viol("failed", format!("{cmd} ends with {} though every read succeeded: {}", run.status(), clip(&run.panic_line(), 200))));
        }
        let out = c.get("out.json").unwrap_or_default();
        if cmd == "generate" {
            let counts = match gen_counts(sc, &src, 24) {
                Ok(x) => x,
                Err(e) => return Ok(Verdict::Skip(e)),
            };
            let (f, _) = parse_file(&out).map_err(|e| viol("output", e))?;
            judge(sc, &f.vocab, &counts)?;
        } else {
            let re = regex::Regex::new(FIND).unwrap();
            let want: HashSet<&str> = src.iter().flatten().flat_map(|s| re.find_iter(s).map(|m| m.as_str())).collect();
            let got: Vec<String> = serde_json::from_slice(&out).map_err(|e| viol("output", e.to_string()))?;
            let g: HashSet<&str> = got.iter().map(|s| s.as_str()).collect();
            for w in &want {
                ensure!(g.contains(w), "lost", "sample with {w:?} was not used");
            }
            for w in &g {
                ensure!(want.contains(w), "excess", "sample with {w:?} was used, but is past the fraction configured");
            }
        }
        c.probe(if fault == "none" { "exactly the samples configured" } else { "exactly the samples configured, under faults" });
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one fault or short or interrupted call, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's file, thread, lock, clock, entropy and memory interface with its faults is simulated below libc; files live on a scratch tmpfs")
    }
}
