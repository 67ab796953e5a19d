//! Dataset generation: every split complete, in order and of one language, or failure.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};

pub struct C22;
const LANGS: &[&str] = &["python", "rust", "c-sharp", "json", "go", "r", "sql", "haskell", "vue", "toml", "Go", "R", "c", "c++", "objective-c++", "Vue", "go.mod", "train"];
const ZH: &str = "rojas-diego/chinese-markdown";
const DROPPED: &[&str] = &["tiny", "wide", "narrow", "sparse", "digits", "greek", "blob", "huge"];

/// Seven letters that tell language, document and position.
fn word(lang: usize, doc: usize, j: usize) -> String {
    let l = |n: usize| (b'g' + (n % 20) as u8) as char;
    [l(lang), l(doc / 400), l(doc / 20), l(doc), l(j / 400), l(j / 20), l(j)].iter().collect()
}
fn content(lang: usize, doc: usize, d: &Value, zh: bool) -> String {
    // a document found before, maybe in another language
    let doc = d[3].as_u64().map_or(doc, |k| k as usize);
    let lang = d[4].as_u64().map_or(lang, |k| k as usize % 20);
    let n = d[1].as_u64().unwrap_or(1).clamp(4, 1200) as usize;
    let style = d[2].as_u64().unwrap_or(0);
    let mut s = String::new();
    for j in 0..n {
        if j > 0 {
            s += match (j % 7 == 0, style) {
                (true, 1) => "\r\n",
                (true, _) => "\n",
                (_, 2) => " 你",
                _ => " ",
            };
        }
        s += &word(lang, doc, j);
    }
    // nothing is dropped from Chinese Markdown
    match d[0].as_str().unwrap_or("") {
        _ if zh => s,
        "tiny" => "tiny".into(),
        "digits" => "12345 67890 ".repeat(20),
        "greek" => "αβγδε ζηθικ ".repeat(20),
        "blob" => format!("{s} {} {s}", "QmFzZTY0".repeat(60)),
        _ => s,
    }
}
fn document(lang: usize, i: usize, d: &Value, zh: bool) -> Value {
    let text = content(lang, i, d, zh);
    if zh {
        return json!({ "code": text });
    }
    let kind = d[0].as_str().unwrap_or("");
    let longest = text.lines().map(|l| l.chars().count()).max().unwrap_or(0);
    json!({
        "size": if kind == "huge" { 400_000 } else { text.len() },
        "avg_line_length": if kind == "wide" { 400.0 } else if kind == "narrow" { 2.0 } else { 50.0 },
        "max_line_length": if kind == "wide" { 5000 } else { longest },
        "alphanum_fraction": if kind == "sparse" { 0.05 } else { 0.8 },
        "content": text,
    })
}
fn mb(v: &Value) -> usize {
    (v.as_f64().unwrap_or(0.0) * 1_048_576.0) as usize
}
/// What the files of one language have to hold; whether the quota was reached
/// before the stream broke off.
fn expected(lang: usize, l: &Value, zh: bool) -> (Vec<u8>, Vec<u8>, bool) {
    let (train, test) = (mb(&l["train"]), mb(&l["test"]));
    let (mut a, mut b) = (vec![], vec![]);
    let docs = l["docs"].as_array().unwrap();
    let end = l["fail"].as_i64().map_or(docs.len(), |f| (f.max(0) as usize).min(docs.len()));
    for (i, d) in docs.iter().enumerate().take(end) {
        if d[0] != "keep" && !zh {
            continue;
        }
        let written = a.len() + b.len();
        let f = if written < test {
            &mut b
        } else if written < test + train {
            &mut a
        } else {
            break;
        };
        f.extend(content(lang, i, d, zh).into_bytes());
        f.push(0);
    }
    let full = a.len() + b.len() >= test + train;
    (a, b, full)
}
fn pieces(b: &[u8]) -> Result<Vec<String>, Verdict> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    ensure!(b.last() == Some(&0), "terminator", "a file does not end with NUL");
    let t = std::str::from_utf8(&b[..b.len() - 1]).map_err(|_| viol("utf8", "a file is not UTF-8"))?;
    Ok(t.split('\0').map(|s| s.to_string()).collect())
}
/// Infilling samples consist of chunks of training documents, each document and chunk used once.
fn infilling(c: &Ctx, pool: &[String], train: usize, test: usize) -> Result<usize, Verdict> {
    let get = |n: &str| c.get(n).ok_or_else(|| viol("missing", format!("exit status 0 without {n}")));
    let (a, b) = (pieces(&get("data/train/infilling.bin")?)?, pieces(&get("data/test/infilling.bin")?)?);
    let mut used: HashSet<usize> = HashSet::new();
    let mut written = 0;
    for (k, s) in b.iter().chain(&a).enumerate() {
        let in_test = k < b.len();
        ensure!(in_test == (written < test), "split", "infilling sample {k} is in the wrong split, {written} bytes after the start");
        ensure!(written < test + train, "quota", "infilling sample {k} is past the quota");
        written += s.len() + 1;
        if s.is_empty() {
            continue;
        }
        // the last chunk of one document runs into the first of the next
        let mut chunks: Vec<(usize, &str)> = vec![];
        for part in s.split('\u{7f}') {
            let mut rest = part;
            let mut left = 2;
            while !rest.is_empty() {
                ensure!(left > 0, "chunk", "infilling sample {k}: {:?} is not made of training text", clip(part, 200));
                left -= 1;
                // the longest start of it that is in some document
                let mut best: Option<(usize, usize)> = None;
                for (d, t) in pool.iter().enumerate() {
                    let (mut lo, mut hi) = (0, rest.chars().count());
                    let ends: Vec<usize> = rest.char_indices().map(|(i, _)| i).chain([rest.len()]).collect();
                    while lo < hi {
                        let mid = (lo + hi + 1) / 2;
                        if t.contains(&rest[..ends[mid]]) {
                            lo = mid;
                        } else {
                            hi = mid - 1;
                        }
                    }
                    if best.map_or(true, |(n, _)| ends[lo] > n) {
                        best = Some((ends[lo], d));
                    }
                }
                let Some((n, d)) = best.filter(|b| b.0 > 0) else {
                    return Err(viol("chunk", format!("infilling sample {k}: {:?} is not training text", clip(rest, 200))));
                };
                chunks.push((d, &rest[..n]));
                rest = &rest[n..];
            }
        }
        let mut by_doc: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
        for (d, t) in chunks {
            // short ends may be anywhere
            if t.chars().count() < 16 {
                continue;
            }
            let at = pool[d].find(t).unwrap();
            by_doc.entry(d).or_default().push((at, at + t.len()));
        }
        for (d, mut v) in by_doc {
            ensure!(used.insert(d), "twice", "document {:?} is used in two infilling samples", clip(&pool[d], 60));
            v.sort();
            for w in v.windows(2) {
                // a chunk may share its first letters with the end of its neighbour
                ensure!(w[1].0 + 8 >= w[0].1, "twice", "text of document {:?} is used twice", clip(&pool[d], 60));
            }
        }
    }
    ensure!(written >= test + train, "incomplete", "exit status 0 with {written} of {} bytes of infilling", test + train);
    Ok(a.len() + b.len())
}

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6]);
        let mut names: Vec<&str> = LANGS.to_vec();
        r.shuffle(&mut names);
        let infill = r.chance(25) && n > 0;
        let fail = r.chance(25);
        let lang = |r: &mut Rng, name: &str| {
            let k = match r.below(8) {
                0 => r.below(3),
                1 if thorough => r.range(30, 300),
                _ => r.range(3, 30),
            };
            let k = if infill { k + 40 } else { k };
            let long = r.chance(15);
            let mut total = 0;
            let docs: Vec<Value> = (0..k)
                .map(|i| {
                    let kind = if r.chance(30) { *r.pick(DROPPED) } else { "keep" };
                    let words = match r.below(10) {
                        _ if infill => r.range(60, 120),
                        0 if long => r.range(300, 1200),
                        0 => r.range(2, 4),
                        _ => r.range(4, 60),
                    };
                    let _ = i;
                    total += words * 8;
                    json!([kind, words, r.below(3)])
                })
                .collect();
            let mut docs = docs;
            if !infill && r.chance(25) {
                // found before, and in several languages
                for i in 0..k {
                    if r.chance(25) {
                        let j = r.below(i + 1);
                        docs[i] = json!([docs[j][0], docs[j][1], docs[j][2], docs[j][3].as_u64().unwrap_or(j as u64), docs[j][4]]);
                        if r.chance(30) {
                            docs[i][4] = json!(r.below(3));
                            docs[i][3] = json!(r.below(4));
                            docs[i][1] = json!(20);
                            docs[i][2] = json!(0);
                        }
                    }
                }
            }
            // quotas from nothing to more than there is
            let part = |r: &mut Rng| (total as f64 * *r.pick(&[0.0, 0.05, 0.2, 0.5, 0.5, 1.0, 3.0]) * (0.5 + r.f() / 2.0)) / 1_048_576.0;
            let (train, test) = if infill { (1.0, part(r)) } else { (part(r), part(r)) };
            let round = |x: f64| (x * 1e7).round() / 1e7;
            let mut l = json!({"name": name, "train": round(train), "test": round(test), "docs": docs});
            if r.chance(40) {
                l["slow"] = json!((0..r.range(1, 4)).map(|_| r.below(k + 1)).collect::<Vec<_>>());
                if r.chance(30) {
                    l["delay"] = json!(*r.pick(&[0.01, 45.0, 400.0, 4000.0, 90_000.0]));
                }
            }
            if fail && r.chance(60) {
                l["fail"] = json!(r.range(0, k + 1) as i64 - 1);
            }
            l
        };
        let langs: Vec<Value> = (0..n).map(|i| lang(r, names[i])).collect();
        let zh = if r.chance(25) || n == 0 { lang(r, ZH) } else { Value::Null };
        let mut sim = sched(r);
        // a short interval makes the interpreter switch threads often
        sim.remove("threads");
        if r.chance(50) {
            benign(r, &mut sim);
        }
        let fault = *r.pick(&["none", "none", "none", "io", "full", "open", "read", "late", "kill", "killio", "thread"]);
        match fault {
            "io" => {
                sim.insert("eiow".into(), json!(*r.pick(&[50_000u64, 300_000, 1_000_000])));
            }
            "full" => {
                sim.insert("cap".into(), json!(r.below(20_000)));
            }
            "open" => {
                sim.insert("open".into(), json!(*r.pick(&[50_000u64, 300_000])));
            }
            "read" => {
                sim.insert("eior".into(), json!(300_000));
            }
            _ => {}
        }
        json!({
            "langs": langs, "zh": zh,
            "infill": if infill { json!([*r.pick(&[0.0, 0.0005, 0.002, 0.005]), *r.pick(&[0.0, 0.0005, 0.002])]) } else { Value::Null },
            "apart": r.chance(30), "old": r.chance(40), "fault": fault, "at": r.below(1_000_000), "power": r.below(2),
            "switch": *r.pick(&[0.005, 0.005, 0.0005, 0.00005]), "sim": sim,
        })
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let sim = with(&cfg_of(&sc["sim"]), &[("fixseed", 1)]);
        let none = vec![];
        let langs = sc["langs"].as_array().unwrap_or(&none);
        let zh = sc["zh"].is_object().then(|| &sc["zh"]);
        let fault = sc["fault"].as_str().unwrap_or("none");
        let mut streams = serde_json::Map::new();
        let mut quotas: Vec<String> = vec![];
        for (i, l) in langs.iter().chain(zh).enumerate() {
            let is_zh = i == langs.len();
            let docs: Vec<Value> = l["docs"].as_array().unwrap_or(&none).iter().enumerate().map(|(k, d)| document(i, k, d, is_zh)).collect();
            let mut s = json!({ "docs": docs });
            for k in ["slow", "delay", "fail"] {
                if !l[k].is_null() {
                    s[k] = l[k].clone();
                }
            }
            let name = l["name"].as_str().unwrap_or("");
            if !LANGS.contains(&name) && name != ZH || (name == ZH) != is_zh {
                return Ok(Verdict::Skip("no such language"));
            }
            if streams.insert(name.into(), s).is_some() {
                return Ok(Verdict::Skip("a language twice"));
            }
            if !is_zh {
                quotas.push(format!("{name}:{},{}", l["train"], l["test"]));
            }
        }
        let mut a: Vec<String> = args(&["--output", "data"]);
        if !quotas.is_empty() {
            a.push("--the-stack-quotas".into());
            a.extend(quotas);
        }
        if let Some(z) = zh {
            a.extend(args(&["--chinese-markdown-quota", &format!("{},{}", z["train"], z["test"])]));
        }
        let infill = sc["infill"].is_array() && !langs.is_empty();
        let mut second = vec![];
        if infill {
            let q = args(&["--infilling-quota", &format!("{},{}", sc["infill"][0], sc["infill"][1])]);
            if sc["apart"] == true {
                second = args(&["--output", "data"]);
                second.extend(q);
            } else {
                a.extend(q);
            }
        }
        // a thread that waits for the interpreter gives the others time to run
        let switch = sc["switch"].as_f64().unwrap_or(0.005).max(crate::sim::cfg_u(&sim, "tick", 1000) as f64 * 60e-9);
        let scenario = |a: &[String]| json!({"streams": streams, "args": a, "switch": switch});
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut broken = false;
        // a stream that fails where it may or may not be noticed
        let mut unclear = false;
        let mut pool = vec![];
        let mut must = 0;
        for (i, l) in langs.iter().chain(zh).enumerate() {
            let is_zh = i == langs.len();
            let (train, test, full) = expected(i, l, is_zh);
            if !l["fail"].is_null() {
                broken |= !full || l["fail"] == json!(-1);
                unclear = true;
            }
            let name = l["name"].as_str().unwrap_or("").rsplit('/').next().unwrap();
            let docs = pieces(&train)?;
            must += docs.len() / 5;
            pool.extend(docs);
            want.insert(format!("data/train/{name}.bin"), train);
            want.insert(format!("data/test/{name}.bin"), test);
        }
        let bystanders: &[(&str, &[u8])] = &[("notes.txt", b"not to be touched"), ("data/train/README", b"nor this"), ("data/test/elm.bin", b"nor that\0")];
        let setup = |c: &mut Ctx| {
            c.wipe();
            for (n, b) in bystanders {
                c.put(n, b);
            }
            if sc["old"] == true {
                for (i, n) in want.keys().enumerate() {
                    c.put(n, "OLD DATA\0".repeat([3, 10_000][i % 2]).as_bytes());
                }
                c.put("data/train/infilling.bin", b"OLD DATA\0OLD DATA\0OLD DATA\0OLD DATA\0OLD DATA\0OLD DATA\0");
            }
            // would otherwise be taken for training data of a language
            if sc["apart"] != true {
                for n in ["data/test/infilling.bin"] {
                    c.put(n, b"OLD DATA\0");
                }
            }
        };
        let quota = |k: usize| mb(&sc["infill"][k]);
        // four documents give at least one sample of over 1000 bytes
        let attainable = infill && must / 4 * 1000 > quota(0) + quota(1) + 1000;
        let judge = |c: &mut Ctx, run: &Run, first: bool, last: bool, clean: bool| -> Result<bool, Verdict> {
            if let Some(e) = bad_end(run) {
                return Err(viol("hang", e));
            }
            for (n, b) in bystanders {
                ensure!(c.get(n).as_deref() == Some(*b), "other-file", "{n} was changed or removed");
            }
            if !run.ok() {
                if !clean || broken || unclear {
                    c.probe("fails: stream or fault");
                } else if infill && last && !attainable {
                    c.probe("fails: not enough training data for infilling");
                } else {
                    return Err(viol("failed", format!("dataset generation ends with {} though nothing failed: {}", run.status(), clip(&run.panic_line(), 200))));
                }
                return Ok(false);
            }
            ensure!(!(broken && first), "silent", "exit status 0 though a stream broke off before the quota was reached");
            for (n, b) in &want {
                let got = c.get(n);
                ensure!(
                    got.as_ref() == Some(b),
                    "content",
                    "exit status 0, but {n} is not what the stream gives: {} bytes, {} expected{}",
                    got.as_ref().map_or("no file".into(), |g| g.len().to_string()),
                    b.len(),
                    got.as_ref().map_or(String::new(), |g| format!(", different from byte {}", g.iter().zip(b).take_while(|(x, y)| x == y).count()))
                );
            }
            if infill && last {
                let n = infilling(c, &pool, quota(0), quota(1))?;
                c.probe(if n > 0 { "infilling samples" } else { "infilling of nothing" });
            }
            for n in c.snapshot().keys() {
                ensure!(
                    want.contains_key(n) || bystanders.iter().any(|b| b.0 == n) || n.ends_with("/infilling.bin"),
                    "other-file",
                    "exit status 0 and leaves {n}"
                );
            }
            c.probe(if langs.len() > 1 { "complete, several languages" } else { "complete" });
            Ok(true)
        };
        setup(c);
        let mut cfg = sim.clone();
        if ["kill", "killio", "late", "thread"].contains(&fault) {
            let pilot = c.datagen(&sim, &scenario(&a))?;
            judge(c, &pilot, true, second.is_empty(), true)?;
            let place = |n: u64| 1 + sc["at"].as_u64().unwrap_or(0) * n / 1_000_000;
            let power = sc["power"].as_u64().unwrap_or(0);
            setup(c);
            match fault {
                // half of the kills fall after the files were opened
                "kill" => cfg = with(&cfg, &[("crash", if power == 0 { place(pilot.steps) } else { pilot.first_wopen_step + place(pilot.steps.saturating_sub(pilot.first_wopen_step)) }), ("power", power)]),
                "killio" => cfg = with(&cfg, &[("crashio", place(pilot.io_ops)), ("power", power)]),
                "late" => cfg = with(&cfg, &[("ioarm", place(pilot.io_ops)), ("eiow", 700_000), ("open", 700_000)]),
                _ => {
                    if pilot.creates == 0 {
                        return Ok(Verdict::Skip("no threads"));
                    }
                    cfg = with(&cfg, &[("tfail", place(pilot.creates - 1))]);
                }
            }
        }
        let run = c.datagen(&cfg, &scenario(&a))?;
        let struck = run.crashed() || ["read_error", "write_error", "disk_full", "open_error", "thread_spawn_failure"].iter().any(|f| run.fault(f) > 0);
        let done = if run.crashed() { false } else { judge(c, &run, true, second.is_empty(), !struck)? };
        if !done && struck && !broken {
            // the disk is repaired, the machine back up: the same command completes
            let again = c.datagen(&with(&seq(7), &[]), &scenario(&a))?;
            judge(c, &again, true, second.is_empty(), true)?;
            c.probe("run again after a failure");
        }
        if done && !second.is_empty() {
            let run = c.datagen(&sim, &scenario(&second))?;
            let struck = ["read_error", "write_error", "disk_full", "open_error"].iter().any(|f| run.fault(f) > 0);
            judge(c, &run, false, true, !struck)?;
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one fault or short or interrupted call, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real scripts/datagen.py in a real Python interpreter with its threads", "the dataset service is a stand-in that streams documents, slowly or breaking off; the kernel's file, thread, lock, clock and entropy interface with its faults and power loss is simulated below libc; files live on a scratch tmpfs")
    }
}
