//! Save, load, string form and pickling.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::sim::Cfg;
use crate::tgx::{parse_file, Ref, Tok, TokFile};
use crate::util::*;
use serde_json::json;

pub struct C03;

pub fn odd_score(r: &mut Rng) -> f64 {
    loop {
        let s = match r.below(8) {
            0 => f64::from_bits(r.next()),
            1 => -(r.f() * 20.0),
            2 => -(r.f() * 20.0),
            3 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e15, -1e16, 1e300, 5e-324, -2.2250738585072014e-308, f64::MAX, f64::MIN, 0.1, -1e-7, 123456789.125]),
            4 => -((r.f() + 1e-9).ln().abs()),
            _ => score(r),
        };
        if s.is_finite() {
            return s;
        }
    }
}
const ODD_SPECIALS: &[&str] = &[
    "\"", "\\", "\"quoted\"", "a\nb", "\t", "\u{1}", "\u{7f}", "\u{2028}", "é\"", "<|\n|>", "\\u0041", "/", "\u{0}", " ", "  ", "null", "[]", "\u{feff}", "🦀\\", "%s", "{}", "\u{85}",
];
pub fn odd_special(r: &mut Rng) -> Vec<String> {
    let mut v = specials(r, 3);
    for _ in 0..r.below(4) {
        let s = r.pick(ODD_SPECIALS).to_string();
        if v.iter().all(|x| !x.starts_with(&s) && !s.starts_with(x.as_str())) {
            v.push(s);
        }
    }
    r.shuffle(&mut v);
    v
}
pub fn odd_vocab(r: &mut Rng, pool: &[String], n: usize) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    if r.chance(60) {
        v = bytes_vocab(r, true);
        if r.chance(50) {
            for t in v.iter_mut() {
                t.keep = r.chance(50);
            }
        }
    }
    let mut seen: std::collections::HashSet<Vec<u8>> = v.iter().map(|t| t.v.clone()).collect();
    let cut = tokens(r, pool, n, false);
    let mut more: Vec<Vec<u8>> = cut;
    for _ in 0..r.below(12) {
        more.push((0..r.range(1, 12)).map(|_| r.next() as u8).collect());
    }
    for s in ODD_SPECIALS {
        if r.chance(15) {
            more.push(s.as_bytes().to_vec());
        }
    }
    // values that look like the encoded form of others
    if r.chance(30) {
        more.push(b"/w".to_vec());
        more.push(vec![0xff]);
        more.push(b"AAAA".to_vec());
    }
    for t in more {
        if !t.is_empty() && seen.insert(t.clone()) {
            v.push(Tok { v: t, s: 0.0, keep: r.chance(30) });
        }
    }
    let odd = r.chance(60);
    for t in v.iter_mut() {
        if odd {
            t.s = odd_score(r);
        } else if t.s == 0.0 {
            t.s = score(r);
        }
    }
    if r.chance(30) {
        r.shuffle(&mut v);
    }
    v
}
/// The tokenizer a dump shows. Python dumps have neither keep flags nor processors.
pub fn of_dump(v: &Value) -> Option<TokFile> {
    let mut f = TokFile { special: strs(&v["special"]), procs: strs(&v["processors"]), vocab: vec![] };
    for t in v["vocab"].as_array()? {
        f.vocab.push(Tok {
            v: unhex(t[0].as_str()?)?,
            s: f64::from_bits(u64::from_str_radix(t[1].as_str()?, 16).ok()?),
            keep: t[2].as_bool().unwrap_or(false),
        });
    }
    let n = f.vocab.len() as u64;
    let k = f.special.len() as u64;
    if v["sizes"] != json!([n + k, n, k]) {
        return None;
    }
    Some(f)
}
/// A float that serde_json's default parser does not read back exactly.
pub fn unlucky() -> f64 {
    let mut r = Rng::new(77);
    loop {
        let x = -(r.f() * 20.0);
        let t = serde_json::to_string(&x).unwrap();
        if serde_json::from_str::<f64>(&t).unwrap() != x {
            return x;
        }
    }
}
pub struct Same {
    pub ulp: Option<String>,
}
/// Does `got` equal `want`? Scores may show the listed parser finding.
pub fn compare(want: &TokFile, got: &TokFile, python: bool, what: &str) -> Result<Same, Verdict> {
    ensure!(got.special == want.special, "special-tokens", "{what}: special tokens {:?} became {:?}", want.special, got.special);
    if !python {
        ensure!(got.procs == want.procs, "processors", "{what}: processors {:?} became {:?}", want.procs, got.procs);
    }
    ensure!(got.vocab.len() == want.vocab.len(), "vocab", "{what}: {} tokens became {}", want.vocab.len(), got.vocab.len());
    let mut ulp = None;
    for (i, (a, b)) in want.vocab.iter().zip(&got.vocab).enumerate() {
        ensure!(a.v == b.v, "vocab", "{what}: token {i} {:?} became {:?}", String::from_utf8_lossy(&a.v), String::from_utf8_lossy(&b.v));
        if !python {
            ensure!(a.keep == b.keep, "keep", "{what}: keep flag of token {i} {:?} became {}", String::from_utf8_lossy(&a.v), b.keep);
        }
        if a.s.to_bits() != b.s.to_bits() {
            let t = serde_json::to_string(&a.s).unwrap();
            let d = serde_json::from_str::<f64>(&t).unwrap_or(f64::NAN);
            // text with its nearest double, read by the default parser of serde_json
            let near = (b.s.to_bits() as i64).wrapping_sub(a.s.to_bits() as i64).abs() <= 2;
            if d.to_bits() == b.s.to_bits() && near {
                ulp = Some(format!("{what}: score {t} was loaded as {:?}", b.s));
            } else {
                return Err(viol("score", format!("{what}: score {t} of token {i} became {:?}", b.s)));
            }
        }
    }
    Ok(Same { ulp })
}

/// Is there a token twice?
fn twice(f: &TokFile) -> bool {
    let mut seen = std::collections::HashSet::new();
    !f.vocab.iter().all(|t| seen.insert(&t.v))
}
fn check_encodings(f: &TokFile, texts: &[String], res: &[Value], what: &str) -> Result<(), Verdict> {
    let m = Ref::new(f);
    for (i, t) in texts.iter().enumerate() {
        let v = bare(&res[i]);
        let got = match v.get("ok") {
            Some(o) => ids_of(o),
            None => {
                ensure!(v.get("panic").is_none(), "died", "{what}: {v}");
                None
            }
        };
        // huge scores cancel: only the shape is checked then
        let tame = f.vocab.iter().all(|t| t.s.abs() < 1e6) && !twice(f);
        if let Some(e) = m.check_encode(t, false, got.as_deref(), tame) {
            return Err(viol("encodes-differently", format!("{what}: {e}")));
        }
    }
    Ok(())
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Value {
        let pool = pool(r);
        let big = r.chance(4);
        let n = if big { 1500 } else { 25 };
        let mut vocab = odd_vocab(r, &pool, n);
        if r.chance(8) && !vocab.is_empty() {
            // tokens it has already, as add_base_tokens may add
            for _ in 0..r.range(1, 3) {
                let mut t = r.pick(&vocab).clone();
                t.s = score(r);
                let at = r.below(vocab.len() + 1);
                vocab.insert(at, t);
            }
        }
        let mut special = odd_special(r);
        if r.chance(3) {
            // longer than the buffers files are read through
            let unit = *r.pick(&["é", "你", "🦀", "e\u{301}", "x"]);
            special.push(format!("<{}", unit.repeat(*r.pick(&[9_000usize, 22_000, 70_000]) + r.below(4))));
        }
        let texts: Vec<String> = (0..r.range(1, 6)).map(|_| mixed_text(r, &pool, &special, 8)).collect();
        let mut a = sched(r);
        benign(r, &mut a);
        let mut b = sched(r);
        benign(r, &mut b);
        let kind = *r.pick(&["file", "file", "file", "string", "string", "python", "pickle", "pickle"]);
        let old = match r.below(5) {
            // another tokenizer of the same length
            4 => json!("sibling"),
            0 => Value::Null,
            1 => json!(""),
            2 => json!("{\"version\": \"2.0\", \"special_tokens\": [], \"processors\": [], \"vocab\": []}"),
            _ => json!("x".repeat(*r.pick(&[10usize, 3000, 200_000]))),
        };
        let mut sc = json!({"kind": kind, "sim_a": a, "sim_b": b, "vocab": toks_json(&vocab), "procs": procs(r), "special": special, "texts": texts, "old": old,
               "generations": r.range(1, 3), "proto": r.range(2, 5), "added": if r.chance(30) { json!(["<|added|>", "\"x\""]) } else { json!([]) }});
        if r.chance(1) {
            let (n, t) = fill(r);
            sc["fill"] = json!(n);
            sc["generations"] = json!(1);
            sc["texts"].as_array_mut().unwrap().push(json!(t));
        }
        sc
    }
    fn pinned(&self) -> Vec<Value> {
        let mut v: Vec<Tok> = (0..=255u8).map(|b| Tok { v: vec![b], s: -8.0, keep: true }).collect();
        v.push(Tok { v: b"unlucky".to_vec(), s: unlucky(), keep: false });
        let s = json!({"seed": 1, "mode": 0, "threads": 1, "ncpu": 1, "tick": 1000});
        ["file", "pickle"]
            .iter()
            .map(|k| {
                json!({"kind": k, "sim_a": s, "sim_b": s, "vocab": toks_json(&v), "procs": ["crlf", "nfc"], "special": ["<s>", "\"q\"\n"], "texts": ["unlucky <s>\r\n"],
                   "old": null, "generations": 1, "proto": 4, "added": []})
            })
            .collect()
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let (a, b): (Cfg, Cfg) = (cfg_of(&sc["sim_a"]), cfg_of(&sc["sim_b"]));
        let mut f = tokfile(sc);
        f.vocab.retain(|t| !t.v.is_empty());
        let texts = strs(&sc["texts"]);
        let proto = sc["proto"].as_u64().unwrap_or(4);
        let mut ulp: Option<String> = None;
        let enc: Vec<Value> = texts.iter().map(|t| json!({"op": "encode", "text": t, "p": 0.0})).collect();
        let sibling = sc["old"] == "sibling";
        if let Some(o) = sc["old"].as_str().filter(|_| !sibling) {
            c.put("t.json", o.as_bytes());
        }
        let mut ops = vec![];
        if sibling {
            let mut g = f.clone();
            let n = g.vocab.len();
            if n > 1 {
                g.vocab.swap(0, n - 1);
            }
            ops.push(new_op(3, &g));
            ops.push(json!({"op": "save", "slot": 3, "path": "t.json"}));
        }
        ops.push(new_op(0, &f));
        let added = strs(&sc["added"]);
        if !added.is_empty() {
            ops.push(json!({"op": "add_special", "tokens": added}));
            for s in &added {
                if !s.is_empty() && !f.special.contains(s) {
                    f.special.push(s.clone());
                }
            }
        }
        let base = ops.len();
        ops.push(json!({"op": "dump"}));
        ops.extend(enc.clone());
        ops.push(json!({"op": "to_string"}));
        ops.push(json!({"op": "restring", "from": 0, "slot": 1}));
        ops.push(json!({"op": "dump", "slot": 1}));
        ops.push(json!({"op": "save", "path": "t.json"}));
        let (run, res) = c.driver(&a, &json!(ops))?;
        alive(&run, &res, ops.len())?;
        let res = &res[base..];
        let made = of_dump(okv(&res[0], "dump")?).ok_or_else(|| viol("vocab", "sizes disagree with the tokens"))?;
        compare(&f, &made, false, "construction")?;
        check_encodings(&f, &texts, &res[1..], "before saving")?;
        let orig_enc: Vec<Value> = res[1..1 + texts.len()].iter().map(bare).collect();
        let k = 1 + texts.len();
        let string = okv(&res[k], "to_string")?.as_str().unwrap_or("").to_string();
        okv(&res[k + 1], "loading the string form")?;
        let re = of_dump(okv(&res[k + 2], "dump")?).ok_or_else(|| viol("vocab", "sizes disagree with the tokens"))?;
        ulp = compare(&f, &re, false, "string form")?.ulp.or(ulp);
        okv(&res[k + 3], "save")?;
        // what was written, read independently
        for (what, bytes) in [("saved file", c.get("t.json").unwrap_or_default()), ("string form", string.clone().into_bytes())] {
            let (w, texts) = parse_file(&bytes).map_err(|e| viol("unreadable", format!("{what}: {e}")))?;
            compare_exact(&f, &w, &texts, what)?;
        }
        let dump_ops = |from: Vec<Value>| {
            let mut o = from;
            let n = o.len();
            o.push(json!({"op": "dump"}));
            o.extend(enc.clone());
            (o, n)
        };
        let mut cur = f.clone();
        let see = |cur: &mut TokFile, ulp: &mut Option<String>, res: &[Value], n: usize, python: bool, what: &str| -> Result<(), Verdict> {
            for v in &res[..n] {
                okv(v, what)?;
            }
            let g = of_dump(okv(&res[n], what)?).ok_or_else(|| viol("vocab", format!("{what}: sizes disagree with the tokens")))?;
            let s = compare(cur, &g, python, what)?;
            if s.ulp.is_none() && ulp.is_none() {
                for (i, w) in orig_enc.iter().enumerate() {
                    let x = bare(&res[n + 1 + i]);
                    if python && w.get("ok").is_none() {
                        ensure!(x["err"] == "tokengeex", "encodes-differently", "{what}: {:?} gives {x}, before {w}", clip(&texts[i], 60));
                    } else {
                        ensure!(x == *w, "encodes-differently", "{what}: {:?} gives {}, before {}", clip(&texts[i], 60), clip(&x.to_string(), 100), clip(&w.to_string(), 100));
                    }
                }
            } else {
                for t in cur.vocab.iter_mut().zip(&g.vocab) {
                    t.0.s = t.1.s;
                }
                check_encodings(cur, &texts, &res[n + 1..], what)?;
            }
            if let Some(u) = s.ulp {
                *ulp = Some(u);
            }
            Ok(())
        };
        match sc["kind"].as_str().unwrap_or("") {
            "file" => {
                for g in 0..sc["generations"].as_u64().unwrap_or(1) {
                    let (mut ops, n) = dump_ops(vec![json!({"op": "load", "path": "t.json"})]);
                    ops.push(json!({"op": "save", "path": "t.json"}));
                    let (run, res) = c.driver(&b, &json!(ops))?;
                    alive(&run, &res, ops.len())?;
                    see(&mut cur, &mut ulp, &res, n, false, &format!("loaded file, generation {g}"))?;
                    okv(res.last().unwrap(), "save")?;
                }
            }
            "string" => {
                for g in 0..sc["generations"].as_u64().unwrap_or(1) {
                    let (ops, n) = dump_ops(vec![json!({"op": "from_str", "json": string})]);
                    let (run, res) = c.driver(&b, &json!(ops))?;
                    alive(&run, &res, ops.len())?;
                    let mut from = f.clone();
                    see(&mut from, &mut ulp, &res, n, false, &format!("string form in another process ({g})"))?;
                }
            }
            "python" => {
                let (mut ops, n) = dump_ops(vec![json!({"op": "load", "path": "t.json"})]);
                ops.push(json!({"op": "save", "path": "t2.json"}));
                ops.push(json!({"op": "restring", "slot": 1, "from": 0}));
                ops.push(json!({"op": "dump", "slot": 1}));
                let (run, res) = c.python(&b, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                see(&mut cur, &mut ulp, &res, n, true, "file loaded in Python")?;
                for v in &res[res.len() - 3..] {
                    okv(v, "save or string form in Python")?;
                }
                let g = of_dump(okv(res.last().unwrap(), "dump")?).ok_or_else(|| viol("vocab", "sizes disagree with the tokens"))?;
                ulp = compare(&cur, &g, true, "string form in Python")?.ulp.or(ulp);
                let (ops, n) = dump_ops(vec![json!({"op": "load", "path": "t2.json"})]);
                let (run, res) = c.driver(&b, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                see(&mut cur, &mut ulp, &res, n, false, "file saved by Python")?;
                c.probe("files through Python");
            }
            _ => {
                let ops = vec![
                    json!({"op": "load", "path": "t.json"}),
                    json!({"op": "save_pickle", "path": "t.pkl", "proto": proto}),
                    json!({"op": "copy", "slot": 2, "from": 0, "deep": proto % 2 == 0}),
                    json!({"op": "dump", "slot": 0}),
                    json!({"op": "dump", "slot": 2}),
                ];
                let (run, res) = c.python(&a, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                okv(&res[0], "load in Python")?;
                okv(&res[1], "pickling")?;
                okv(&res[2], "copying in Python")?;
                let g = of_dump(okv(&res[3], "dump")?).ok_or_else(|| viol("vocab", "sizes disagree with the tokens"))?;
                ulp = compare(&cur, &g, true, "file loaded in Python")?.ulp.or(ulp);
                for t in cur.vocab.iter_mut().zip(&g.vocab) {
                    t.0.s = t.1.s;
                }
                let g = of_dump(okv(&res[4], "dump")?).ok_or_else(|| viol("vocab", "sizes disagree with the tokens"))?;
                ulp = compare(&cur, &g, true, "copy in Python")?.ulp.or(ulp);
                let (mut ops, n) = dump_ops(vec![json!({"op": "load_pickle", "path": "t.pkl"})]);
                ops.push(json!({"op": "save", "path": "t2.json"}));
                let (run, res) = c.python(&b, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                see(&mut cur, &mut ulp, &res, n, true, "unpickled in another process")?;
                okv(res.last().unwrap(), "save in Python")?;
                let (ops, n) = dump_ops(vec![json!({"op": "load", "path": "t2.json"})]);
                let (run, res) = c.driver(&b, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                see(&mut cur, &mut ulp, &res, n, false, "unpickled, then saved")?;
                c.probe("pickles");
            }
        }
        if f.vocab.len() > 4096 {
            c.probe("vocabularies of more than 4096 tokens");
        }
        if let Some(u) = ulp {
            c.probe("scores off by one unit");
            return Ok(Verdict::Known("score-ulp".into(), u));
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator injected at least one short or interrupted read or write, or made a scheduling decision that differs from the default; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the whole library with its serde code, and the real Python binding in a real CPython interpreter", "client programs (driver.rs, driver.py); the kernel's file, clock, entropy and futex interface is simulated below libc, files live on a scratch tmpfs")
    }
}
pub fn compare_exact(want: &TokFile, got: &TokFile, texts: &[String], what: &str) -> Result<(), Verdict> {
    ensure!(got.special == want.special, "special-tokens", "{what}: special tokens {:?} written as {:?}", want.special, got.special);
    ensure!(got.procs == want.procs, "processors", "{what}: processors {:?} written as {:?}", want.procs, got.procs);
    ensure!(got.vocab.len() == want.vocab.len(), "vocab", "{what}: {} tokens written for {}", got.vocab.len(), want.vocab.len());
    for (i, (a, b)) in want.vocab.iter().zip(&got.vocab).enumerate() {
        ensure!(a.v == b.v && a.keep == b.keep, "vocab", "{what}: token {i} {a:?} written as {b:?}");
        ensure!(a.s.to_bits() == b.s.to_bits(), "score", "{what}: score {:?} of token {i} written as {}", a.s, texts[i]);
    }
    Ok(())
}
