//! The search: seeded scenarios, verdicts, minimisation, replay, evidence.
use crate::sim::{self, Cfg, Dec, Place, Run, Spec};
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Verdict {
    Pass,
    /// the scenario does not meet its own preconditions, or is ambiguous
    Skip(&'static str),
    Violation(String, String),
    /// a listed finding: (id, what)
    Known(String, String),
    Harness(String),
}
pub fn viol<T: Into<String>>(class: &str, msg: T) -> Verdict {
    Verdict::Violation(class.to_string(), msg.into())
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub cnt: Vec<u64>,
    pub hashes: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub probes: BTreeMap<String, u64>,
    pub skips: BTreeMap<String, u64>,
    pub scenarios: u64,
    pub threads: u64,
    pub max_steps: u64,
    pub components: BTreeMap<String, u64>,
}
impl Stats {
    fn add(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        self.scenarios += o.scenarios;
        self.threads += o.threads;
        self.max_steps = self.max_steps.max(o.max_steps);
        if self.cnt.is_empty() {
            self.cnt = vec![0; sim::CNT.len()];
        }
        for (a, b) in self.cnt.iter_mut().zip(&o.cnt) {
            *a += b;
        }
        self.hashes.extend(&o.hashes);
        self.nontrivial.extend(&o.nontrivial);
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.skips {
            *self.skips.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.components {
            *self.components.entry(k.clone()).or_default() += v;
        }
    }
}

pub struct Paths {
    pub verif: PathBuf,
    pub lib: PathBuf,
    pub cli: PathBuf,
    pub driver: PathBuf,
    pub pymod: PathBuf,
}
pub fn paths() -> Paths {
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let t = verif.join("target");
    let rel = t.join("tsan/x86_64-unknown-linux-gnu/release");
    Paths { lib: t.join("libsim.so"), cli: rel.join("tokengeex"), driver: rel.join("tgxdriver"), pymod: t.join("py"), verif }
}

/// What a property's `exec` uses to run simulated processes.
pub struct Ctx<'a> {
    pub place: Place,
    pub p: &'a Paths,
    pub stats: Stats,
    /// decision scripts by run ordinal, for replay and minimisation
    pub scripts: Option<Vec<Option<Vec<Dec>>>>,
    pub rec: Vec<(Vec<Dec>, bool)>,
    pub nrun: usize,
    pub trace: bool,
    pub digest: u64,
    pub wall: u64,
    /// much input: more steps and time until a run counts as hung
    pub big: std::cell::Cell<bool>,
}
impl<'a> Ctx<'a> {
    pub fn new(p: &'a Paths, root: PathBuf) -> Ctx<'a> {
        let disk = root.join("disk");
        fs::create_dir_all(&disk).unwrap();
        Ctx {
            place: Place { root, disk, lib: p.lib.clone() },
            p,
            stats: Stats::default(),
            scripts: None,
            rec: vec![],
            nrun: 0,
            trace: false,
            digest: 0,
            wall: 60,
            big: Default::default(),
        }
    }
    pub fn begin(&mut self) {
        self.nrun = 0;
        self.big.set(false);
        self.rec.clear();
        self.digest = 0;
        self.wipe();
    }
    pub fn wipe(&mut self) {
        let _ = fs::remove_dir_all(&self.place.disk);
        fs::create_dir_all(&self.place.disk).expect("disk directory");
    }
    pub fn put(&self, name: &str, data: &[u8]) {
        let f = self.place.disk.join(name);
        if name.contains('/') {
            let _ = fs::create_dir_all(f.parent().unwrap());
        }
        fs::write(f, data).expect("disk file");
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.place.disk.join(name)).ok()
    }
    pub fn rm(&self, name: &str) {
        let _ = fs::remove_file(self.place.disk.join(name));
    }
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(dir: &Path, at: &str, m: &mut BTreeMap<String, Vec<u8>>) {
            for e in fs::read_dir(dir).into_iter().flatten().flatten() {
                let n = format!("{at}{}", e.file_name().to_string_lossy());
                if e.path().is_dir() {
                    walk(&e.path(), &format!("{n}/"), m);
                } else {
                    m.insert(n, fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.place.disk, "", &mut m);
        m
    }
    pub fn probe(&mut self, k: &str) {
        *self.stats.probes.entry(k.to_string()).or_default() += 1;
    }
    fn run(&mut self, what: &str, mut spec: Spec, cfg: &Cfg) -> Result<Run, Verdict> {
        let mut cfg = cfg.clone();
        if self.big.get() {
            spec.wall *= 4;
            cfg.entry("budget").or_insert(json!(400_000_000u64));
        }
        let cfg = &cfg;
        let k = self.nrun;
        self.nrun += 1;
        // runs of one scenario differ, unless they are to be the same up to a fault
        let seed = if sim::cfg_u(cfg, "fixseed", 0) == 1 { mix(sim::cfg_u(cfg, "seed", 1)) } else { mix(sim::cfg_u(cfg, "seed", 1) ^ mix(k as u64 + 1)) };
        let script = self.scripts.as_ref().and_then(|s| s.get(k)).and_then(|s| s.as_deref());
        let r = sim::exec(&self.place, &spec, cfg, seed, script).map_err(Verdict::Harness)?;
        self.digest = mix(self.digest ^ r.hash).wrapping_add(hash_str(&String::from_utf8_lossy(&r.stdout)));
        self.rec.push((r.decs.clone(), r.overflow));
        let s = &mut self.stats;
        s.runs += 1;
        s.steps += r.steps;
        s.max_steps = s.max_steps.max(r.steps);
        s.sim_ns += r.now;
        s.threads += r.threads;
        *s.components.entry(what.to_string()).or_default() += 1;
        if s.cnt.is_empty() {
            s.cnt = vec![0; sim::CNT.len()];
        }
        for (a, b) in s.cnt.iter_mut().zip(&r.cnt) {
            *a += b;
        }
        s.hashes.insert(r.hash);
        if !r.decs.is_empty() {
            s.nontrivial.insert(r.hash);
        }
        if self.trace {
            eprintln!(
                "  run {k} {what} {:?} seed={seed} cfg={} -> {} outcome={} steps={} now={}ms threads={} mallocs={} io={} ndec={} hash={:016x}",
                spec.args.iter().map(|a| clip(a, 60)).collect::<Vec<_>>(),
                serde_json::to_string(cfg).unwrap(),
                r.status(),
                r.outcome,
                r.steps,
                r.now / 1_000_000,
                r.threads,
                r.mallocs,
                r.io_ops,
                r.decs.len(),
                r.hash
            );
            if r.code != Some(0) {
                eprintln!("    {}", clip(&r.panic_line(), 300));
            }
        }
        Ok(r)
    }
    /// The real command line tool.
    pub fn cli(&mut self, cfg: &Cfg, args: &[String], log: &str) -> Result<Run, Verdict> {
        let prog = self.p.cli.clone();
        let wall = self.wall;
        self.run("cli", Spec { prog: &prog, args: args.to_vec(), env: vec![("RUST_LOG".into(), log.into())], wall }, cfg)
    }
    /// The driver, linked with the real library. One result per operation; fewer if it died.
    pub fn driver(&mut self, cfg: &Cfg, ops: &Value) -> Result<(Run, Vec<Value>), Verdict> {
        let f = self.place.root.join("scenario.json");
        fs::write(&f, serde_json::to_vec(&json!({ "ops": ops })).unwrap()).map_err(|e| Verdict::Harness(e.to_string()))?;
        let prog = self.p.driver.clone();
        let wall = self.wall;
        let r = self.run("driver", Spec { prog: &prog, args: vec![f.to_string_lossy().into_owned()], env: vec![], wall }, cfg)?;
        let v = parse_lines(&r.stdout)?;
        Ok((r, v))
    }
    /// The real dataset script in a real interpreter, fed by a stand-in for the dataset service.
    pub fn datagen(&mut self, cfg: &Cfg, scenario: &Value) -> Result<Run, Verdict> {
        let f = self.place.root.join("scenario.json");
        fs::write(&f, serde_json::to_vec(scenario).unwrap()).map_err(|e| Verdict::Harness(e.to_string()))?;
        let prog = PathBuf::from("/usr/bin/python3");
        let drv = self.p.verif.join("py/datagen.py");
        let wall = self.wall;
        self.run(
            "datagen",
            Spec {
                prog: &prog,
                args: vec!["-S".into(), "-E".into(), "-B".into(), drv.to_string_lossy().into_owned(), f.to_string_lossy().into_owned()],
                env: vec![("TGX_REPO".into(), std::env::var("DST_REPO").unwrap_or_else(|_| "/repo".into()))],
                wall,
            },
            cfg,
        )
    }
    /// The real evaluation script in a real interpreter, with the real binding.
    /// Numpy is a small stand-in, unless the script needs more of it.
    pub fn evaluate(&mut self, cfg: &Cfg, args: &[String], switch: f64) -> Result<Run, Verdict> {
        let root = self.place.root.clone();
        let drv = self.p.verif.join("py/evaluate.py").to_string_lossy().into_owned();
        let spec = |f: &std::path::Path| vec!["-S".into(), "-E".into(), "-B".into(), drv.clone(), f.to_string_lossy().into_owned()];
        let env: Vec<(String, String)> = vec![
            ("TGX_REPO".into(), std::env::var("DST_REPO").unwrap_or_else(|_| "/repo".into())),
            ("TGX_PYMOD".into(), self.p.pymod.to_string_lossy().into_owned()),
            ("OPENBLAS_NUM_THREADS".into(), "1".into()),
        ];
        let small = *SMALL_NUMPY.get_or_init(|| {
            // does the script get by with the stand-in?
            let d = root.join("probe");
            let ok = (|| -> std::io::Result<Option<i32>> {
                fs::create_dir_all(&d)?;
                let vocab = (0..=255u8).map(|b| crate::tgx::Tok { v: vec![b], s: -5.0, keep: true }).collect();
                fs::write(d.join("v.json"), crate::tgx::TokFile { special: vec![], procs: vec![], vocab }.to_json())?;
                fs::write(d.join("go.bin"), "ab\0a")?;
                fs::write(d.join("args"), r#"{"switch": 0.005, "args": ["-l", "tokengeex", "-f", "v.json", "-i", "*.bin", "-o", "log.json"]}"#)?;
                let mut c = std::process::Command::new("/usr/bin/python3");
                c.args(spec(&d.join("args"))).current_dir(&d).env_clear().envs(env.clone()).env("SMALL_NUMPY", "1").env("LC_ALL", "C.UTF-8");
                c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                Ok(c.status()?.code())
            })();
            let _ = fs::remove_dir_all(&d);
            !matches!(ok, Ok(Some(77)))
        });
        let f = root.join("scenario.json");
        fs::write(&f, serde_json::to_vec(&json!({"args": args, "switch": switch})).unwrap()).map_err(|e| Verdict::Harness(e.to_string()))?;
        let mut env = env;
        if small {
            env.push(("SMALL_NUMPY".into(), "1".into()));
        }
        let prog = PathBuf::from("/usr/bin/python3");
        let wall = self.wall;
        self.run("evaluate", Spec { prog: &prog, args: spec(&f), env, wall }, cfg)
    }
    /// the same operations in either language
    pub fn client(&mut self, python: bool, cfg: &Cfg, ops: &Value) -> Result<(Run, Vec<Value>), Verdict> {
        if python {
            self.python(cfg, ops)
        } else {
            self.driver(cfg, ops)
        }
    }
    /// The real Python binding in a real interpreter.
    pub fn python(&mut self, cfg: &Cfg, ops: &Value) -> Result<(Run, Vec<Value>), Verdict> {
        let f = self.place.root.join("scenario.json");
        fs::write(&f, serde_json::to_vec(&json!({ "ops": ops })).unwrap()).map_err(|e| Verdict::Harness(e.to_string()))?;
        let prog = PathBuf::from("/usr/bin/python3");
        let drv = self.p.verif.join("py/driver.py");
        let wall = self.wall;
        let hs = sim::cfg_u(cfg, "seed", 1) % 4_000_000_000;
        let r = self.run(
            "python",
            Spec {
                prog: &prog,
                args: vec!["-S".into(), "-E".into(), "-B".into(), drv.to_string_lossy().into_owned(), f.to_string_lossy().into_owned()],
                env: vec![("TGX_PYMOD".into(), self.p.pymod.to_string_lossy().into_owned()), ("PYTHONHASHSEED".into(), hs.to_string())],
                wall,
            },
            cfg,
        )?;
        let v = parse_lines(&r.stdout)?;
        Ok((r, v))
    }
}
fn parse_lines(b: &[u8]) -> Result<Vec<Value>, Verdict> {
    let mut out = vec![];
    for l in b.split(|c| *c == b'\n') {
        if l.is_empty() {
            continue;
        }
        match serde_json::from_slice::<Value>(l) {
            Ok(v) => out.push(v["r"].clone()),
            Err(e) => return Err(Verdict::Harness(format!("driver output: {e}"))),
        }
    }
    Ok(out)
}

static SMALL_NUMPY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value;
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict>;
    /// scenarios every run starts with
    fn pinned(&self) -> Vec<Value> {
        vec![]
    }
    fn rule(&self) -> &'static str;
    fn components(&self) -> (&'static str, &'static str);
    fn quick_secs(&self) -> u64 {
        60
    }
}

fn run_exec(p: &dyn Prop, sc: &Value, c: &mut Ctx) -> Verdict {
    c.begin();
    match catch_unwind(AssertUnwindSafe(|| p.exec(sc, c))) {
        Ok(Ok(v)) | Ok(Err(v)) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Verdict::Harness(format!("oracle panicked: {m}"))
        }
    }
}

fn scratch() -> PathBuf {
    let b = if fs::create_dir_all("/dev/shm/.dstw").is_ok() {
        let _ = fs::remove_dir("/dev/shm/.dstw");
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    b.join(format!("tgxdst.{}", std::process::id()))
}
fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s);
        let v: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &s)).collect();
        if v.is_empty() {
            vec![0]
        } else {
            v
        }
    }
}
fn pin(cpu: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
    }
}

pub struct Known {
    pub property: String,
    pub id: String,
    pub status: String,
    pub what: String,
}
pub fn known(verif: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = fs::read_to_string(verif.join("known-findings.jsonl")) {
        for l in t.lines().filter(|l| !l.trim().is_empty()) {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                let g = |k: &str| j[k].as_str().unwrap_or("").to_string();
                v.push(Known { property: g("property"), id: g("id"), status: g("status"), what: g("what") });
            }
        }
    }
    v
}

struct Found {
    sc: Value,
    class: String,
    msg: String,
    index: u64,
}

pub fn check(p: &dyn Prop, seed: u64, tier: &str) -> i32 {
    let t0 = Instant::now();
    let ps = paths();
    for f in [&ps.lib, &ps.cli, &ps.driver] {
        if !f.exists() {
            eprintln!("harness error: {} is missing (run.sh builds it)", f.display());
            return 2;
        }
    }
    println!("property={} seed={seed} tier={tier}", p.id());
    sim::start_watchdog();
    let root = scratch();
    let thorough = tier == "thorough";
    let secs = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { p.quick_secs() });
    let max_runs: u64 = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let end = t0 + Duration::from_secs(secs);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let samples: Mutex<BTreeMap<u64, Value>> = Mutex::new(BTreeMap::new());
    let knowns: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let pinned = p.pinned();
    let kf = known(&ps.verif);
    let cp = cpus();
    let nw = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(cp.len()).max(1);
    let nmax = pinned.len() as u64;
    std::thread::scope(|s| {
        for w in 0..nw {
            let (next, stop, found, harness, total, samples, knowns, pinned, ps, kf, cp, root) =
                (&next, &stop, &found, &harness, &total, &samples, &knowns, &pinned, &ps, &kf, &cp, &root);
            s.spawn(move || {
                pin(cp[w % cp.len()]);
                let mut c = Ctx::new(ps, root.join(format!("w{w}")));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if stop.load(Ordering::SeqCst) || i >= max_runs.saturating_add(nmax) || (i >= nmax && Instant::now() > end) {
                        break;
                    }
                    let sc = if i < nmax {
                        pinned[i as usize].clone()
                    } else {
                        let mut r = Rng::new(mix(seed) ^ hash_str(p.id()) ^ mix(i));
                        p.gen(&mut r, thorough)
                    };
                    let v = run_exec(p, &sc, &mut c);
                    c.stats.scenarios += 1;
                    if i >= nmax && i < nmax + 3 {
                        samples.lock().unwrap().insert(i, sc.clone());
                    }
                    match v {
                        Verdict::Pass => {}
                        Verdict::Skip(w) => *c.stats.skips.entry(w.to_string()).or_default() += 1,
                        Verdict::Known(id, what) => {
                            if kf.iter().any(|k| k.property == p.id() && k.id == id && k.status == "known") {
                                knowns.lock().unwrap().entry(id).or_insert(what);
                            } else {
                                stop.store(true, Ordering::SeqCst);
                                found.lock().unwrap().push(Found { sc, class: id, msg: what, index: i });
                            }
                        }
                        Verdict::Violation(class, msg) => {
                            stop.store(true, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { sc, class, msg, index: i });
                        }
                        Verdict::Harness(m) => {
                            let mut h = harness.lock().unwrap();
                            h.push(format!("scenario {i}: {m}"));
                            if h.len() > 20 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                }
                total.lock().unwrap().add(&c.stats);
            });
        }
    });
    let explored = t0.elapsed().as_secs_f64();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.index);
    let harness = harness.into_inner().unwrap();
    let mut code = 0;
    let mut nviol = 0;
    let mut unrepro = vec![];
    for f in found {
        // the same scenario again, in a fresh place
        let mut c = Ctx::new(&ps, root.join("confirm"));
        pin(cp[0]);
        let again = match run_exec(p, &f.sc, &mut c) {
            Verdict::Violation(cl, m) | Verdict::Known(cl, m) => Some((cl, m)),
            _ => None,
        };
        match again {
            Some((cl, msg)) => {
                let (rep, msg) = minimise(p, &mut c, f.sc, cl, msg, seed, t0);
                let dir = ps.verif.join("replays");
                let _ = fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-{}-{}.json", p.id(), seed, f.index));
                fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
                println!("class: {}", rep["class"].as_str().unwrap());
                println!("what: {msg}");
                println!("VIOLATION property={} replay={}", p.id(), path.display());
                nviol += 1;
                code = 1;
                break;
            }
            None => unrepro.push(format!("scenario {} ({}: {}) did not repeat", f.index, f.class, f.msg)),
        }
    }
    let st = total.into_inner().unwrap();
    for (id, w) in knowns.lock().unwrap().iter() {
        let text = kf.iter().find(|k| k.property == p.id() && &k.id == id).map(|k| k.what.clone()).unwrap_or_else(|| w.clone());
        println!("KNOWN-FINDING: property={} {text}", p.id());
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, &ps, seed, tier, &st, samples.into_inner().unwrap(), explored, wall, nviol, nw);
    println!(
        "{} scenarios, {} simulated runs, {} distinct executions, {:.1}s simulated, {:.0} runs/hour, {:.1}s, at most {} steps in a run",
        st.scenarios,
        st.runs,
        st.nontrivial.len(),
        st.sim_ns as f64 / 1e9,
        st.runs as f64 / explored * 3600.0,
        wall,
        st.max_steps
    );
    if !st.skips.is_empty() {
        println!("skipped: {:?}", st.skips);
    }
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("probes: {:?}", st.probes);
        for i in 0..sim::CNT.len() {
            if i < st.cnt.len() && st.cnt[i] > 0 {
                println!("  {:<22} {}", sim::CNT[i], st.cnt[i]);
            }
        }
    }
    let _ = fs::remove_dir_all(&root);
    if code == 0 && (!harness.is_empty() || !unrepro.is_empty()) {
        for h in harness.iter().chain(&unrepro).take(10) {
            eprintln!("harness error: {h}");
        }
        return 2;
    }
    code
}

fn trim(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(clip(s, 60)),
        Value::Array(a) => {
            let mut o: Vec<Value> = a.iter().take(6).map(trim).collect();
            if a.len() > 6 {
                o.push(json!(format!("... {} in all", a.len())));
            }
            json!(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), trim(v))).collect()),
        x => x.clone(),
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &dyn Prop, ps: &Paths, seed: u64, tier: &str, st: &Stats, samples: BTreeMap<u64, Value>, explored: f64, wall: f64, nviol: u64, nw: usize) {
    let mut faults = Map::new();
    let mut events = Map::new();
    for (i, n) in sim::CNT.iter().enumerate() {
        let v = st.cnt.get(i).copied().unwrap_or(0);
        if i >= sim::FIRST_FAULT && i <= sim::LAST_FAULT {
            if v > 0 {
                faults.insert(n.to_string(), json!(v));
            }
        } else if v > 0 {
            events.insert(n.to_string(), json!(v));
        }
    }
    let (real, stub) = p.components();
    let mut samples: Vec<Value> = samples.values().map(trim).collect();
    if samples.is_empty() {
        samples = p.pinned().iter().take(1).map(trim).collect();
    }
    if samples.is_empty() {
        samples.push(json!("none"));
    }
    let e = json!({
        "property": p.id(), "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
        "coverage": {
            "evaluations": st.scenarios,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule(),
            "samples": samples,
            "simulated_runs": st.runs,
            "runs_per_hour": (st.runs as f64 / explored * 3600.0) as u64,
            "seeds_per_hour": (st.scenarios as f64 / explored * 3600.0) as u64,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "simulated_steps": st.steps,
            "simulated_threads": st.threads,
            "distinct_executions": st.hashes.len(),
            "distinct_measure": "64-bit hash of every scheduling decision, context switch, I/O call and injected fault of a run",
            "faults_injected": faults,
            "scheduling_events": events,
            "probes": st.probes,
            "skipped_scenarios": st.skips,
            "parallel_workers": nw,
            "processes_by_program": st.components,
            "real_code": real,
            "stubs": stub,
        },
        "assumptions": [
            "Interleavings are sequentially consistent: weak-memory reorderings are not explored.",
            "Switches happen at atomic operations, futex calls, allocations and I/O; code between them runs undisturbed.",
            "Search by seed: what was not sampled was not tried."
        ],
    });
    let dir = ps.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}

fn same(p: &dyn Prop, sc: &Value, c: &mut Ctx, class: &str) -> Option<String> {
    match run_exec(p, sc, c) {
        Verdict::Violation(cl, m) | Verdict::Known(cl, m) if cl == class => Some(m),
        _ => None,
    }
}

// Every smaller variant of a scenario, biggest cuts first.
fn cuts(v: &Value, path: &mut Vec<String>, out: &mut Vec<(usize, Vec<String>, Value)>) {
    match v {
        Value::Array(a) => {
            if path.last().map_or(false, |k| k.starts_with('!')) {
                return;
            }
            let n = a.len();
            let mut size = n;
            while size >= 1 && n > 0 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone();
                    b.drain(i..(i + size).min(n));
                    out.push((size, path.clone(), json!(b)));
                    i += size;
                }
                size /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                cuts(x, path, out);
                path.pop();
            }
        }
        Value::String(s) => {
            let ch: Vec<char> = s.chars().collect();
            if ch.len() > 3 && !path.iter().any(|k| k.starts_with('!') || k == "cmd" || k == "kind" || k == "op") {
                let h = ch.len() / 2;
                out.push((h / 4, path.clone(), json!(ch[..h].iter().collect::<String>())));
                out.push((h / 4, path.clone(), json!(ch[h..].iter().collect::<String>())));
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                if path.is_empty() && k.starts_with('_') {
                    continue;
                }
                if k == "seed" || k == "budget" {
                    continue;
                }
                let insim = path.last().map_or(false, |k| k.starts_with("sim"));
                if insim {
                    if let Some(n) = x.as_u64() {
                        if n > 0 && !["mode", "mean", "tick", "ncpu", "threads", "mw", "crash", "crashio", "memcap", "cap", "fixseed"].contains(&k.as_str()) {
                            path.push(k.clone());
                            out.push((2, path.clone(), json!(0)));
                            path.pop();
                        }
                        if k == "threads" && n > 2 {
                            path.push(k.clone());
                            out.push((2, path.clone(), json!(2)));
                            path.pop();
                        }
                    }
                    continue;
                }
                path.push(k.clone());
                cuts(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn set(v: &mut Value, path: &[String], x: Value) -> bool {
    if path.is_empty() {
        *v = x;
        return true;
    }
    match v {
        Value::Object(m) => m.get_mut(&path[0]).map_or(false, |y| set(y, &path[1..], x)),
        Value::Array(a) => path[0].parse::<usize>().ok().and_then(|i| a.get_mut(i)).map_or(false, |y| set(y, &path[1..], x)),
        _ => false,
    }
}

fn decs_json(s: &[Option<Vec<Dec>>]) -> Value {
    json!(s
        .iter()
        .map(|r| r.as_ref().map(|d| d.iter().map(|d| json!([d.key, d.kind, d.a, d.b])).collect::<Vec<_>>()))
        .collect::<Vec<_>>())
}
fn decs_from(v: &Value) -> Option<Vec<Option<Vec<Dec>>>> {
    Some(
        v.as_array()?
            .iter()
            .map(|r| {
                r.as_array().map(|a| {
                    a.iter()
                        .map(|d| Dec {
                            key: d[0].as_u64().unwrap_or(0),
                            kind: d[1].as_u64().unwrap_or(0) as u32,
                            a: d[2].as_u64().unwrap_or(0) as u32,
                            b: d[3].as_u64().unwrap_or(0),
                        })
                        .collect()
                })
            })
            .collect(),
    )
}

fn minimise(p: &dyn Prop, c: &mut Ctx, mut sc: Value, class: String, mut msg: String, seed: u64, t0: Instant) -> (Value, String) {
    let end = Instant::now() + Duration::from_secs(60);
    let _ = t0;
    let orig = sc.clone();
    // 1. the workload
    let mut progress = true;
    let mut evals = 0;
    // stay within seconds even when each run is a hang
    c.wall = 20;
    while progress && Instant::now() < end && evals < 600 {
        progress = false;
        let mut cs = vec![];
        cuts(&sc, &mut vec![], &mut cs);
        cs.sort_by_key(|x| std::cmp::Reverse(x.0));
        for (_, path, x) in cs {
            if Instant::now() > end || evals >= 600 {
                break;
            }
            let mut t = sc.clone();
            if !set(&mut t, &path, x) || t == sc {
                continue;
            }
            evals += 1;
            if let Some(m) = same(p, &t, c, &class) {
                sc = t;
                msg = m;
                progress = true;
                break;
            }
        }
    }
    // 2. the schedule and the faults
    let mut scripts: Option<Vec<Option<Vec<Dec>>>> = None;
    let mut full = 0;
    if same(p, &sc, c, &class).is_some() && !c.rec.iter().any(|r| r.1) {
        let all: Vec<Option<Vec<Dec>>> = c.rec.iter().map(|r| Some(r.0.clone())).collect();
        full = all.iter().map(|x| x.as_ref().unwrap().len()).sum();
        c.scripts = Some(all.clone());
        if same(p, &sc, c, &class).is_some() {
            let mut cur = all;
            let end2 = Instant::now() + Duration::from_secs(45);
            for run in 0..cur.len() {
                let mut size = cur[run].as_ref().unwrap().len();
                while size >= 1 && Instant::now() < end2 {
                    let mut i = 0;
                    let mut any = false;
                    while i < cur[run].as_ref().unwrap().len() && Instant::now() < end2 {
                        let mut t = cur.clone();
                        let d = t[run].as_mut().unwrap();
                        let j = (i + size).min(d.len());
                        d.drain(i..j);
                        c.scripts = Some(t.clone());
                        if same(p, &sc, c, &class).is_some() {
                            cur = t;
                            any = true;
                        } else {
                            i += size;
                        }
                    }
                    if size == 1 && !any {
                        break;
                    }
                    size = if size == 1 { 1 } else { size / 2 };
                }
            }
            c.scripts = Some(cur.clone());
            if let Some(m) = same(p, &sc, c, &class) {
                msg = m;
                scripts = Some(cur);
            }
        }
        c.scripts = None;
    }
    let kept: usize = scripts.as_ref().map_or(full, |s| s.iter().map(|x| x.as_ref().map_or(0, |d| d.len())).sum());
    let rep = json!({
        "property": p.id(), "class": class, "what": msg, "verif_seed": seed,
        "scenario": sc,
        "decisions": scripts.as_ref().map(|s| decs_json(s)),
        "decision_format": "per process started: [step or I/O, allocation or thread index, kind, argument, argument]; kinds are in sim/sim.c; null: decided by the seed",
        "decisions_recorded": full, "decisions_kept": kept,
        "original_scenario": orig,
    });
    (rep, msg)
}

pub fn replay(props: &[Box<dyn Prop>], file: &str) -> i32 {
    let j: Value = match fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let id = j["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id() == id) else {
        eprintln!("no property {id:?}");
        return 2;
    };
    sim::start_watchdog();
    let ps = paths();
    let root = scratch();
    pin(cpus()[0]);
    let mut c = Ctx::new(&ps, root.join("replay"));
    c.trace = true;
    c.scripts = decs_from(&j["decisions"]);
    let v = run_exec(p.as_ref(), &j["scenario"], &mut c);
    let _ = fs::remove_dir_all(&root);
    println!("{v:?}");
    match v {
        Verdict::Violation(cl, m) | Verdict::Known(cl, m) => {
            println!("class: {cl}{}", if Some(cl.as_str()) == j["class"].as_str() { "" } else { " (differs from the file)" });
            println!("what: {m}");
            println!("digest: {:016x}", c.digest);
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Verdict::Harness(_) => 2,
        _ => 0,
    }
}

/// Runs each seed several times, in other processes and places, and compares
/// every event log; then replays each recorded decision log the same way.
pub fn selftest(props: &[Box<dyn Prop>], per_prop: u64, seed: u64) -> i32 {
    sim::start_watchdog();
    let ps = paths();
    let root = scratch();
    let cp = cpus();
    let next = AtomicU64::new(0);
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let agg: Mutex<HashMap<&str, (u64, u64, u64, u64)>> = Mutex::new(HashMap::new());
    let jobs: Vec<(usize, u64)> = (0..props.len()).flat_map(|i| (0..per_prop).map(move |k| (i, k))).collect();
    std::thread::scope(|s| {
        for w in 0..cp.len() {
            let (next, bad, agg, jobs, ps, root, cp) = (&next, &bad, &agg, &jobs, &ps, &root, &cp);
            s.spawn(move || {
                pin(cp[w]);
                let mut c = Ctx::new(ps, root.join(format!("w{w}")));
                let mut d = Ctx::new(ps, root.join(format!("a-longer-name-of-another-place-{w}")));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= jobs.len() {
                        break;
                    }
                    let (pi, k) = jobs[i];
                    let p = props[pi].as_ref();
                    let sc = p.gen(&mut Rng::new(mix(seed) ^ hash_str(p.id()) ^ mix(k)), false);
                    let v1 = format!("{:?}", run_exec(p, &sc, &mut c));
                    let g1 = c.digest;
                    let rec: Vec<Option<Vec<Dec>>> = c.rec.iter().map(|r| if r.1 { None } else { Some(r.0.clone()) }).collect();
                    pin(cp[(w + 3) % cp.len()]);
                    let v2 = format!("{:?}", run_exec(p, &sc, &mut d));
                    pin(cp[w]);
                    let g2 = d.digest;
                    c.scripts = Some(rec);
                    let v3 = format!("{:?}", run_exec(p, &sc, &mut c));
                    let g3 = c.digest;
                    c.scripts = None;
                    let mut a = agg.lock().unwrap();
                    let e = a.entry(p.id()).or_default();
                    e.0 += 1;
                    e.1 += c.nrun as u64;
                    if g1 != g2 || v1 != v2 {
                        e.2 += 1;
                        bad.lock().unwrap().push(format!("{} seed {k}: {g1:x} {v1} / {g2:x} {v2}", p.id()));
                    }
                    if g1 != g3 || v1 != v3 {
                        e.3 += 1;
                        bad.lock().unwrap().push(format!("{} seed {k} scripted: {g1:x} {v1} / {g3:x} {v3}", p.id()));
                    }
                }
            });
        }
    });
    let _ = fs::remove_dir_all(&root);
    let a = agg.into_inner().unwrap();
    let mut ids: Vec<_> = a.keys().copied().collect();
    ids.sort();
    for id in ids {
        let e = a[id];
        println!("{id}: {} scenarios, {} processes each run three times, {} diverged on repetition, {} on scripted replay", e.0, e.1, e.2, e.3);
    }
    let bad = bad.into_inner().unwrap();
    for b in bad.iter().take(20) {
        println!("  {}", clip(b, 300));
    }
    (!bad.is_empty()) as i32
}

/// One scenario, with a trace.
pub fn one(p: &dyn Prop, seed: u64, k: u64) -> i32 {
    sim::start_watchdog();
    let ps = paths();
    let root = scratch();
    pin(cpus()[0]);
    let mut c = Ctx::new(&ps, root.join("one"));
    c.trace = true;
    let pinned = p.pinned();
    let sc = if (k as usize) < pinned.len() {
        pinned[k as usize].clone()
    } else {
        p.gen(&mut Rng::new(mix(seed) ^ hash_str(p.id()) ^ mix(k)), false)
    };
    println!("{}", serde_json::to_string_pretty(&trim(&sc)).unwrap());
    let t = Instant::now();
    let v = run_exec(p, &sc, &mut c);
    println!("{v:?} in {:?}", t.elapsed());
    println!("probes {:?}", c.stats.probes);
    if std::env::var_os("VERIF_KEEP").is_some() {
        println!("kept {}", root.display());
    } else {
        let _ = fs::remove_dir_all(&root);
    }
    0
}
