//! Exit status and output of every command, under faults.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::reference::*;
use crate::tgx::parse_file;
use crate::util::*;
use serde_json::json;

pub struct C05;
/// Files of the user that lie next to the output.
const BYSTANDERS: &[&str] = &[
    "bystander.json", "out.json.tmp", "out.json~", "out.json.bak", "out.json.old", "out.json.new", "out.json.part", "out.json.lock", "out.tmp", "out.bak", "out", ".out.json", ".out.json.tmp", ".out.json.swp", "tmp", "out.json.1",
];
const CMDS: &[&str] = &["generate", "generate", "prune", "prune", "merge", "merge", "mine", "filter", "regex"];

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Value {
        let pool = pool(r);
        let cmd = *r.pick(CMDS);
        let mut sc = command(r, cmd, &pool, 12);
        let mut sim = sched(r);
        if r.chance(40) {
            benign(r, &mut sim);
        }
        let fault = match r.below(20) {
            0 | 1 => "none",
            2 => {
                sim.insert("eiow".into(), json!(*r.pick(&[200_000u64, 1_000_000])));
                "io"
            }
            3 => {
                sim.insert("eiow".into(), json!(200_000));
                sim.insert("swrite".into(), json!(900_000));
                "io"
            }
            4 | 5 => "full",
            6 => {
                sim.insert("eior".into(), json!(*r.pick(&[100_000u64, 400_000, 1_000_000])));
                "io"
            }
            7 => {
                sim.insert("open".into(), json!(*r.pick(&[100_000u64, 400_000, 1_000_000])));
                "io"
            }
            8 | 9 => "late_io",
            10 | 11 => "kill",
            12 => "kill_io",
            13 => *r.pick(&["alloc", "alloc_site"]),
            14 => *r.pick(&["alloc_site", "alloc_site", "alloc_site", "memory"]),
            15 | 16 => "thread",
            17 => "missing",
            18 => "invalid",
            _ => {
                sim.insert("rename".into(), json!(500_000));
                sim.insert("fsync".into(), json!(500_000));
                "io"
            }
        };
        let m = sc.as_object_mut().unwrap();
        m.insert("fault".into(), json!(fault));
        m.insert("at".into(), json!(r.below(1_000_000)));
        m.insert("power".into(), json!(r.below(2)));
        m.insert("which".into(), json!(r.below(100)));
        m.insert("inplace".into(), json!(r.chance(25)));
        m.insert("old".into(), json!(*r.pick(&["none", "text", "text", "tokenizer", "long"])));
        m.insert("sim".into(), Value::Object(sim));
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let sim = with(&cfg_of(&sc["sim"]), &[("fixseed", 1)]);
        let cmd = sc["cmd"].as_str().unwrap_or("").to_string();
        let fault = sc["fault"].as_str().unwrap_or("none");
        let at = sc["at"].as_u64().unwrap_or(0);
        let place = |n: u64| 1 + at * n / 1_000_000;
        let inplace = sc["inplace"] == true && matches!(cmd.as_str(), "prune" | "filter" | "merge");
        let old: Option<Vec<u8>> = match sc["old"].as_str().unwrap_or("none") {
            "none" => None,
            "text" => Some(b"OLD OUTPUT".to_vec()),
            "long" => Some("OLD OUTPUT ".repeat(20_000).into_bytes()),
            _ => Some(b"{\"version\":\"2.0\",\"special_tokens\":[\"OLD OUTPUT\"],\"processors\":[],\"vocab\":[]}".to_vec()),
        };
        let setup = |c: &mut Ctx| {
            c.wipe();
            if let Some(o) = &old {
                c.put("out.json", o);
            }
            for n in BYSTANDERS {
                c.put(n, b"not to be touched");
            }
            prepare(c, sc, "out.json")
        };
        // without the fault
        let a = setup(c);
        let pilot = c.cli(&with(&strip(&sim), &[("msite", u64::MAX)]), &a, "info")?;
        if pilot.hung().is_some() || !pilot.ok() {
            if pilot.signal.is_none() && pilot.hung().is_none() {
                c.probe("command refuses");
            }
            return Ok(Verdict::Skip("the command fails without a fault"));
        }
        let good = c.get("out.json").unwrap_or_default();
        complete(c, sc, &cmd, &good, None)?;
        // with it
        let mut cfg = sim.clone();
        let a = setup(c);
        let mut before_output = false;
        let mut must_fail = false;
        let setup_steps = pilot.last_read_step.max(pilot.last_create_step);
        match fault {
            "full" => cfg = with(&cfg, &[("cap", at * good.len() as u64 / 1_000_000)]),
            "late_io" => {
                let k = place(pilot.io_ops);
                cfg = with(&cfg, &[("ioarm", k), ("eior", 700_000), ("eiow", 700_000), ("open", 700_000)]);
            }
            "kill" => {
                // half of the kills fall before the output is touched
                let k = if at % 2 == 0 { place(pilot.steps) } else { place(setup_steps.max(1)) };
                before_output = k <= setup_steps;
                cfg = with(&strip(&cfg), &[("crash", k), ("power", sc["power"].as_u64().unwrap_or(0))]);
            }
            "kill_io" => cfg = with(&cfg, &[("crashio", place(pilot.io_ops)), ("power", sc["power"].as_u64().unwrap_or(0))]),
            "alloc" => {
                let k = if at % 2 == 0 { place(pilot.mallocs) } else { place(pilot.last_setup_mallocs.max(1)) };
                before_output = k <= pilot.last_setup_mallocs;
                cfg = with(&strip(&cfg), &[("mfail", k)]);
            }
            // each place in the program that allocates is as likely as any other
            "alloc_site" => cfg = with(&strip(&cfg), &[("msite", place(pilot.mal_sites)), ("mocc", 1 + at % 5 / 3), ("mfailn", 1 + at % 2)]),
            // there is less memory than the command needs
            "memory" => cfg = with(&strip(&cfg), &[("memcap", place(pilot.mem_peak))]),
            "thread" => {
                if pilot.creates == 0 {
                    return Ok(Verdict::Skip("no threads"));
                }
                before_output = true;
                cfg = with(&strip(&cfg), &[("tfail", place(pilot.creates - 1).min(pilot.creates))]);
            }
            "missing" | "invalid" => {
                let mut inputs: Vec<String> = c.snapshot().into_keys().filter(|n| !BYSTANDERS.contains(&n.as_str()) && (n != "out.json" || inplace)).collect();
                inputs.sort();
                if inputs.is_empty() {
                    return Ok(Verdict::Skip("no inputs"));
                }
                let f = inputs[sc["which"].as_u64().unwrap_or(0) as usize % inputs.len()].clone();
                if fault == "missing" {
                    c.rm(&f);
                } else if f.ends_with(".txt") {
                    c.put(&f, b"(((");
                } else {
                    c.put(&f, b"{\"vocab\": \xff\xfe");
                }
                before_output = true;
                must_fail = true;
            }
            _ => {}
        }
        if fault == "alloc_site" {
            // other places first
            for k in 1..5 {
                let a = setup(c);
                let site = 1 + (place(pilot.mal_sites) + k * pilot.mal_sites / 5) % pilot.mal_sites.max(1);
                let run = c.cli(&with(&cfg, &[("msite", site)]), &a, "info")?;
                if run.ok() {
                    let out = c.get("out.json").unwrap_or_default();
                    complete(c, sc, &cmd, &out, Some(&good))?;
                    exact(c, sc, &cmd, &out, &good)?;
                }
            }
            setup(c);
        }
        let before = c.snapshot();
        let run = c.cli(&cfg, &a, "info")?;
        let after = c.snapshot();
        if run.hung().is_some() {
            return Ok(Verdict::Skip("no end"));
        }
        for (n, b) in &before {
            if n != "out.json" {
                ensure!(after.get(n) == Some(b), "other-file", "{cmd} with {fault}: {n} was {}", if after.contains_key(n) { "changed" } else { "removed" });
            }
        }
        if run.ok() {
            ensure!(!must_fail, "silent-failure", "{cmd} exits 0 with an input {fault}");
            let out = after.get("out.json").cloned().unwrap_or_default();
            complete(c, sc, &cmd, &out, Some(&good))?;
            exact(c, sc, &cmd, &out, &good)?;
            for n in after.keys() {
                ensure!(before.contains_key(n) || n == "out.json", "other-file", "{cmd} exits 0 and leaves {n}");
            }
            c.probe(&format!("{cmd}: exit 0"));
        } else {
            if fault == "none" {
                return Err(viol("failed", format!("{cmd} fails under benign I/O ({}): {}", run.status(), clip(&run.panic_line(), 200))));
            }
            // the faults that strike while the inputs are loaded
            let loading = run.first_wopen_step == 0 && (run.fault("read_error") > 0 || run.fault("open_error") > 0);
            if before_output || loading {
                ensure!(
                    after.get("out.json") == before.get("out.json"),
                    "output-lost",
                    "{cmd} with {fault} fails before writing its output ({}), but the file there is {}",
                    run.status(),
                    after.get("out.json").map_or("gone".to_string(), |b| format!("now {} bytes", b.len()))
                );
                c.probe(&format!("{cmd}: fails early"));
            } else {
                c.probe(&format!("{cmd}: fails"));
            }
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one fault or short or interrupted call, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real command line tool, all of it, as compiled from /repo", "the kernel's file, thread, lock, clock, entropy and memory interface with its faults, page cache and power loss is simulated below libc; files live on a scratch tmpfs")
    }
}
/// the same schedule without I/O faults
fn strip(c: &crate::sim::Cfg) -> crate::sim::Cfg {
    let mut c = c.clone();
    for k in ["eiow", "eior", "open", "rename", "fsync", "swrite", "sread", "eintr"] {
        c.remove(k);
    }
    c
}
/// Is this what the command had to leave?
fn complete(c: &mut Ctx, sc: &Value, cmd: &str, out: &[u8], good: Option<&[u8]>) -> Result<(), Verdict> {
    let bad = |e: String| viol("incomplete-output", format!("{cmd} exits 0, but its output is not complete: {e}"));
    match cmd {
        "regex" => {
            let re = String::from_utf8(out.to_vec()).map_err(|e| bad(e.to_string()))?;
            ensure!(!re.contains("OLD OUTPUT") && !re.is_empty(), "incomplete-output", "regex exits 0, but its output was not written");
            regex::Regex::new(&re).map_err(|e| bad(e.to_string()))?;
            if let Some(g) = good {
                ensure!(out == g, "incomplete-output", "regex exits 0 with {} of {} bytes", out.len(), g.len());
            }
        }
        "mine" => {
            let v: Value = serde_json::from_slice(out).map_err(|e| bad(e.to_string()))?;
            let a = v.as_array().ok_or_else(|| bad("not an array".into()))?;
            if let Some(g) = good {
                let n = serde_json::from_slice::<Value>(g).ok().and_then(|g| g.as_array().map(|a| a.len()));
                ensure!(n == Some(a.len()), "incomplete-output", "mine exits 0 with {} idioms, {n:?} without the fault", a.len());
            }
        }
        _ => {
            let (t, _) = parse_file(out).map_err(bad)?;
            let f = tokfile(sc);
            ensure!(t.special == f.special && t.procs == f.procs, "incomplete-output", "{cmd} exits 0, special tokens {:?}, processors {:?}", t.special, t.procs);
            ensure!(!t.vocab.is_empty(), "incomplete-output", "{cmd} exits 0 with no tokens");
            // and the real code loads it
            c.put("out.json", out);
            let (run, res) = c.driver(&seq(3), &json!([{"op": "load", "path": "out.json"}, {"op": "sizes"}]))?;
            alive(&run, &res, 2)?;
            ensure!(res[0].get("ok").is_some(), "incomplete-output", "{cmd} exits 0, but its output does not load: {}", clip(&res[0].to_string(), 200));
            ensure!(res[1]["ok"][1] == json!(t.vocab.len()), "incomplete-output", "{cmd}: {} tokens written, {} loaded", t.vocab.len(), res[1]["ok"][1]);
        }
    }
    Ok(())
}
/// And is it right?  Faults that the command got over must not show.
fn exact(c: &mut Ctx, sc: &Value, cmd: &str, out: &[u8], good: &[u8]) -> Result<(), Verdict> {
    let procs = strs(&sc["procs"]);
    let src = loaded(&sc["sources"], &procs);
    let tokens = |b: &[u8]| parse_file(b).map(|x| x.0.vocab).map_err(|e| viol("incomplete-output", e));
    match cmd {
        "mine" => {
            if let Ok(count) = c12::counts(sc, &src) {
                c12::judge(out, &count, opt_n(sc, &["-n"], 0))?;
            }
        }
        "generate" if opt_f(sc, &["--insert-probability"], 0.01) == 1.0 => {
            if let Ok(counts) = gen_counts(sc, &src, opt_n(sc, &["--max-token-length"], 24)) {
                c06::judge(sc, &tokens(out)?, &counts)?;
            }
        }
        "merge" => {
            let samples: Vec<&str> = src.iter().flatten().map(|s| s.as_str()).collect();
            c10::judge_exact(sc, &tokfile(sc).vocab, &tokens(out)?, &samples, c)?;
        }
        "filter" => ensure!(tokens(out)? == tokens(good)?, "incomplete-output", "filter exits 0 with another result than without the fault"),
        "prune" => {
            let (a, b) = (tokens(out)?.len(), tokens(good)?.len());
            ensure!(a == b || b != opt_n(sc, &["-v"], 0), "incomplete-output", "prune exits 0 with {a} tokens, {b} without the fault");
        }
        _ => {}
    }
    Ok(())
}
