//! Dropout: lossless, and with the configured distribution.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::tgx::{Ref, Tok, TokFile, Trie};
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;

pub struct C02;
const NATS: f64 = 26.0;
const RARE: &[f64] = &[0.0003, 0.001, 0.001, 0.002, 0.003, 0.005, 0.993, 0.998, 0.999];
const RATES: &[f64] = &[0.02, 0.1, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9, 0.98];

/// kept (true) or dropped, for each word occurrence of the text; None: not made of words and bytes
fn outcome(ids: &[u32], words: &[Vec<u8>], order: &[usize], sep: usize) -> Option<Vec<bool>> {
    let mut out = vec![];
    let mut k = 0;
    for &w in order {
        if *ids.get(k)? == 256 + w as u32 {
            out.push(true);
            k += 1;
        } else {
            for &b in &words[w] {
                if *ids.get(k)? != b as u32 {
                    return None;
                }
                k += 1;
            }
            out.push(false);
        }
        for _ in 0..sep {
            if *ids.get(k)? != b'.' as u32 {
                return None;
            }
            k += 1;
        }
    }
    if k == ids.len() {
        Some(out)
    } else {
        None
    }
}
/// Outcomes in the order they were drawn: does any distance between two of them show?
fn far(name: &str, seq: &[bool], p: f64) -> Option<String> {
    let eq = p * p + (1.0 - p) * (1.0 - p);
    let n = seq.len().min(24_000);
    for d in 1..n {
        // pairs that share nothing, so that they are independent
        let (mut a, mut na) = (0, 0);
        let mut k = 0;
        while k + d < n {
            for j in k..(k + d).min(n - d) {
                a += (seq[j] == seq[j + d]) as u64;
                na += 1;
            }
            k += 2 * d;
        }
        if improbable(a, na, eq, NATS + 10.0) {
            return Some(format!("{name}: occurrences {d} apart agree {a} times of {na} at rate {p}"));
        }
    }
    None
}
fn stats(groups: &[(String, Vec<Vec<bool>>)], p: f64, order: &[usize]) -> Option<String> {
    let m = order.len();
    let mut all = (0u64, 0u64);
    let mut by_tok: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    let eq = p * p + (1.0 - p) * (1.0 - p);
    for (name, calls) in groups {
        let n = calls.len() as u64;
        let mut g = (0u64, 0u64);
        for k in 0..m {
            let x = calls.iter().filter(|c| !c[k]).count() as u64;
            if improbable(x, n, p, NATS) {
                return Some(format!("{name}: occurrence {k} dropped {x} times in {n} calls at rate {p}"));
            }
            g.0 += x;
            g.1 += n;
            let e = by_tok.entry(order[k]).or_default();
            e.0 += x;
            e.1 += n;
        }
        if improbable(g.0, g.1, p, NATS) {
            return Some(format!("{name}: {} of {} occurrences dropped at rate {p}", g.0, g.1));
        }
        all.0 += g.0;
        all.1 += g.1;
        // neighbours in one text, and the same occurrence in consecutive calls, agree as independent ones do
        let (mut a, mut na) = (0, 0);
        for c in calls {
            for k in (0..m.saturating_sub(1)).step_by(2) {
                a += (c[k] == c[k + 1]) as u64;
                na += 1;
            }
        }
        if improbable(a, na, eq, NATS) {
            return Some(format!("{name}: neighbouring occurrences agree {a} times of {na} at rate {p}"));
        }
        if let Some(e) = far(name, &calls.concat(), p) {
            return Some(e);
        }
        let (mut a, mut na) = (0, 0);
        for q in calls.chunks(2) {
            if q.len() == 2 {
                for k in 0..m {
                    a += (q[0][k] == q[1][k]) as u64;
                    na += 1;
                }
            }
        }
        if improbable(a, na, eq, NATS) {
            return Some(format!("{name}: consecutive calls agree on {a} of {na} occurrences at rate {p}"));
        }
    }
    if improbable(all.0, all.1, p, NATS) {
        return Some(format!("{} of {} occurrences dropped at rate {p}", all.0, all.1));
    }
    for (w, (x, n)) in by_tok {
        if improbable(x, n, p, NATS) {
            return Some(format!("word {w} dropped {x} times in {n} occurrences at rate {p}"));
        }
    }
    // no two threads draw the same stream
    for i in 0..groups.len() {
        for j in i + 1..groups.len() {
            let (a, b) = (&groups[i].1, &groups[j].1);
            let n = a.len().min(b.len());
            let bits = (n * m) as f64;
            if bits * -eq.ln() > 45.0 && a[..n] == b[..n] {
                return Some(format!("{} and {} dropped exactly the same occurrences in {n} calls", groups[i].0, groups[j].0));
            }
        }
    }
    if m as f64 * -eq.ln() > 50.0 {
        let mut seen = std::collections::HashMap::new();
        for (name, calls) in groups {
            for (k, c) in calls.iter().enumerate() {
                if let Some(o) = seen.insert(c.clone(), format!("{name} call {k}")) {
                    return Some(format!("{o} and {name} call {k} dropped exactly the same of {m} occurrences"));
                }
            }
        }
    }
    None
}
fn stat_words(r: &mut Rng, long: bool) -> Vec<String> {
    let n = *r.pick(&[1usize, 2, 3, 5]);
    (0..n)
        .map(|i| {
            let head = ["A", "é", "B", "你", "C"][(i + 2 * n) % 5].to_string();
            let len = *r.pick(&[1usize, 1, 2, 4, 15]);
            // lengths around those that fit 7, 8, 10 bits
            let len = if long && i == 0 { *r.pick(&[62usize, 63, 126, 127, 128, 254, 255, 256, 300, 511, 512, 1023, 1024]) - head.len() + r.below(2) } else { len };
            head + &(0..len).map(|k| (b'0' + (k % 10) as u8) as char).collect::<String>()
        })
        .collect()
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let mut sim = sched(r);
        match r.below(12) {
            11 => {
                // few long texts, where what was drawn before might come again
                let p = *r.pick(&[0.1, 0.25, 0.5, 0.5, 0.75, 0.9]);
                let word = r.pick(&["ab", "é", "abc"]).to_string();
                sim.insert("mean".into(), json!(1000));
                json!({"kind": "rare", "sim": sim, "word": word, "p": p, "m": *r.pick(&[3000, 9000, 20_000]), "n": 20_000, "sep": r.below(2), "ordinary": r.chance(50)})
            }
            10 => {
                // rates near 0 and 1, with many occurrences
                let p = *r.pick(RARE);
                let word = r.pick(&["ab", "é", "abc", "A0123456789abcd"]).to_string();
                sim.insert("mean".into(), json!(1000));
                let n = if thorough { 400000 } else { 100000 };
                json!({"kind": "rare", "sim": sim, "word": word, "p": p, "m": r.range(200, 1000), "n": n / word.len() * 2, "sep": r.below(2), "ordinary": r.chance(50)})
            }
            0..=3 => {
                let pool = pool(r);
                let special = specials(r, 3);
                let p = *r.pick(&[0.0, 0.0, 1e-9, 0.01, 0.1, 0.3, 0.5, 0.9, 1.0, 1.0]);
                let texts: Vec<String> = (0..r.range(1, 14)).map(|_| mixed_text(r, &pool, &special, 14)).collect();
                let mut v = bytes_vocab(r, true);
                for t in tokens(r, &pool, 40, false) {
                    let s = score(r);
                    v.push(Tok { v: t, s, keep: r.chance(30) });
                }
                json!({"kind": "lossless", "sim": sim, "vocab": toks_json(&v), "procs": procs(r), "special": special, "texts": texts, "p": p, "threads": r.below(4)})
            }
            4..=7 => {
                let p = *r.pick(RATES);
                let long = r.chance(18);
                let words = stat_words(r, long);
                let m = *r.pick(&[2usize, 6, 10, 20, 64, 90]);
                let m = if long { 4 } else { m };
                let order: Vec<usize> = (0..m).map(|_| r.below(words.len())).collect();
                let calls = (if thorough { 3000 } else { 1000 } / m).max(60);
                if r.chance(70) {
                    // one thread after another: mostly sequential schedules are cheap
                    sim.insert("mean".into(), json!(1000));
                }
                json!({"kind": "rate", "sim": sim, "words": words, "order": order, "p": p, "calls": calls, "sep": r.below(2), "threads": r.below(4),
                       "ordinary": r.chance(50), "python": r.chance(8), "batch": r.chance(60), "keep": r.chance(50), "special": r.chance(30)})
            }
            _ => {
                let p = *r.pick(RATES);
                let words = r.pick(&[
                    vec!["ab", "abc"],
                    vec!["ab", "bc", "abc"],
                    vec!["ab", "ba", "aba"],
                    vec!["aa", "aaa"],
                    vec!["ab", "abcd", "cd", "bcd"],
                    vec!["é1", "1é"],
                    vec!["ab"],
                ]).clone();
                let text = *r.pick(&["abc", "ab", "abcab", "aaaa", "abcd", "ababa", "é1é", "aaa", "xabcx"]);
                let scores: Vec<f64> = words.iter().map(|_| score(r) / 8.0).collect();
                json!({"kind": "joint", "sim": sim, "words": words, "!scores": scores, "text": text, "p": p, "calls": if thorough { 3000 } else { 700 }, "threads": r.range(1, 2)})
            }
        }
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let sim = cfg_of(&sc["sim"]);
        let p = sc["p"].as_f64().unwrap_or(0.0);
        let nth = sc["threads"].as_u64().unwrap_or(0) as usize;
        match sc["kind"].as_str().unwrap_or("") {
            "lossless" => {
                let f = tokfile(sc);
                let m = Ref::new(&f);
                let texts = strs(&sc["texts"]);
                let mut all: Vec<Vec<Value>> = vec![];
                let mut ops = vec![new_op(0, &f)];
                let mut per = vec![];
                for t in &texts {
                    per.push(json!({"op": "encode", "text": t, "p": p}));
                    per.push(json!({"op": "encode_ordinary", "text": t, "p": p}));
                }
                per.push(json!({"op": "encode_batch", "texts": texts, "p": p}));
                per.push(json!({"op": "encode_ordinary_batch", "texts": texts, "p": p}));
                ops.extend(per.clone());
                if nth > 0 {
                    ops.push(json!({"op": "par", "threads": vec![per.clone(); nth]}));
                }
                let mut dec: Vec<Vec<u32>> = vec![];
                let mut exp: Vec<String> = vec![];
                // at rate 0 another process with other randomness has to agree
                for round in 0..if p == 0.0 { 2 } else { 1 } {
                    let n = ops.len();
                    let (run, res) = c.driver(&sim, &json!(ops))?;
                    alive(&run, &res, n)?;
                    let mut lists: Vec<Vec<Value>> = vec![res[1..1 + per.len()].to_vec()];
                    if nth > 0 {
                        let par = res[n - 1]["par"].as_array().cloned().unwrap_or_default();
                        ensure!(par.len() == nth, "died", "{}", clip(&res[n - 1].to_string(), 200));
                        for t in par {
                            lists.push(t.as_array().cloned().unwrap_or_default().iter().map(bare).collect());
                        }
                    }
                    for l in lists {
                        ensure!(l.len() == per.len(), "died", "a client ended early");
                        let mut flat: Vec<(usize, bool, Value)> = vec![];
                        for (i, v) in l.iter().enumerate() {
                            let o = okv(v, "encoding a text whose bytes are all tokens failed")?;
                            if i < 2 * texts.len() {
                                flat.push((i / 2, i % 2 == 1, o.clone()));
                            } else {
                                let a = o.as_array().cloned().unwrap_or_default();
                                ensure!(a.len() == texts.len(), "batch-length", "{} results for {} texts", a.len(), texts.len());
                                for (k, x) in a.into_iter().enumerate() {
                                    flat.push((k, i % 2 == 1, x));
                                }
                            }
                        }
                        for (k, ord, v) in &flat {
                            let ids = ids_of(v).ok_or_else(|| viol("ids", v.to_string()))?;
                            if let Some(e) = m.check_encode(&texts[*k], *ord, Some(&ids), p == 0.0) {
                                return Err(viol("not-lossless", format!("at rate {p}: {e}")));
                            }
                            if p >= 1.0 {
                                for &i in &ids {
                                    if (i as usize) < f.vocab.len() {
                                        ensure!(f.vocab[i as usize].v.len() == 1, "rate-1", "at rate 1 the token {:?} was used", String::from_utf8_lossy(&f.vocab[i as usize].v));
                                    }
                                }
                            }
                            if round == 0 && dec.len() < 40 {
                                // decoded by the real code in another process
                                dec.push(ids);
                                exp.push(if *ord {
                                    crate::tgx::preprocess(&f.procs, &texts[*k])
                                } else {
                                    m.split(&texts[*k])
                                        .iter()
                                        .map(|x| match x {
                                            crate::tgx::Piece::Text(t) => crate::tgx::preprocess(&f.procs, t),
                                            crate::tgx::Piece::Special(i) => f.special[*i].clone(),
                                        })
                                        .collect()
                                });
                            }
                        }
                        all.push(flat.into_iter().map(|x| x.2).collect());
                    }
                }
                if p == 0.0 {
                    for a in &all[1..] {
                        ensure!(*a == all[0], "rate-0-differs", "the same texts were encoded differently at rate 0");
                    }
                }
                let mut ops = vec![new_op(0, &f)];
                for d in &dec {
                    ops.push(json!({"op": "decode", "ids": d, "special": true}));
                }
                let (run, res) = c.driver(&sim, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                for (i, v) in res[1..].iter().enumerate() {
                    let o = okv(v, "decode")?;
                    ensure!(o.as_str() == Some(&exp[i]), "not-lossless", "decoded to {}, expected {:?}", clip(&o.to_string(), 100), clip(&exp[i], 100));
                }
                Ok(Verdict::Pass)
            }
            "rate" => {
                let words = strs(&sc["words"]);
                let wb: Vec<Vec<u8>> = words.iter().map(|w| w.as_bytes().to_vec()).collect();
                let order: Vec<usize> = sc["order"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).filter(|x| *x < words.len()).collect()).unwrap_or_default();
                let sep = sc["sep"].as_u64().unwrap_or(0) as usize;
                let calls = sc["calls"].as_u64().unwrap_or(60);
                if order.is_empty() || words.iter().any(|w| w.chars().count() < 2) {
                    return Ok(Verdict::Skip("nothing to drop"));
                }
                let keep = sc["keep"].as_bool().unwrap_or(false);
                let mut vocab: Vec<Tok> = (0..=255u8).map(|b| Tok { v: vec![b], s: -10.0, keep: true }).collect();
                for w in &wb {
                    vocab.push(Tok { v: w.clone(), s: -1.0, keep });
                }
                let f = TokFile { vocab, special: if sc["special"] == true { vec!["<s>".into()] } else { vec![] }, ..Default::default() };
                let text: String = order.iter().map(|&w| words[w].clone() + &".".repeat(sep)).collect();
                let ord = sc["ordinary"].as_bool().unwrap_or(false);
                let rep = json!({"op": "repeat", "n": calls, "text": text, "p": p, "ordinary": ord});
                let py = sc["python"] == true;
                let mut ops = vec![start_op(py, 0, &f), rep.clone()];
                if nth > 0 {
                    ops.push(json!({"op": "par", "threads": vec![vec![rep.clone()]; nth]}));
                }
                let bi = ops.len();
                if sc["batch"] == true {
                    ops.push(json!({"op": if ord { "encode_ordinary_batch" } else { "encode_batch" }, "texts": vec![text.clone(); calls as usize], "p": p}));
                }
                let mut firsts: Vec<Vec<Vec<bool>>> = vec![];
                for _ in 0..2 {
                    let (run, res) = c.client(py, &sim, &json!(ops))?;
                    alive(&run, &res, ops.len())?;
                    let mut groups: Vec<(String, Vec<Vec<bool>>)> = vec![];
                    let mut take = |name: String, v: &Value| -> Result<(), Verdict> {
                        let mut g = vec![];
                        for x in okv(v, &name)?.as_array().cloned().unwrap_or_default() {
                            let ids = ids_of(&x).unwrap_or_default();
                            g.push(outcome(&ids, &wb, &order, sep).ok_or_else(|| viol("not-lossless", format!("{name}: {ids:?} is neither the words nor their bytes")))?);
                        }
                        ensure!(g.len() == calls as usize, "batch-length", "{name}: {} results", g.len());
                        groups.push((name, g));
                        Ok(())
                    };
                    take("one thread".into(), &res[1])?;
                    if nth > 0 {
                        let par = res[2]["par"].as_array().cloned().unwrap_or_default();
                        ensure!(par.len() == nth, "died", "{}", clip(&res[2].to_string(), 200));
                        for (t, v) in par.iter().enumerate() {
                            take(format!("client thread {t}"), &v[0])?;
                        }
                    }
                    if sc["batch"] == true {
                        take("batch".into(), &res[bi])?;
                    }
                    if let Some(e) = stats(&groups, p, &order) {
                        return Err(viol("distribution", e));
                    }
                    firsts.push(groups[0].1.clone());
                    c.probe("rate tests");
                    if !order.len().is_multiple_of(3) {
                        break;
                    }
                }
                let eq = p * p + (1.0 - p) * (1.0 - p);
                if firsts.len() == 2 && (calls * order.len() as u64) as f64 * -eq.ln() > 45.0 {
                    ensure!(firsts[0] != firsts[1], "distribution", "two processes with different entropy dropped exactly the same");
                }
                Ok(Verdict::Pass)
            }
            "rare" => {
                let word = sc["word"].as_str().unwrap_or("ab").to_string();
                let m = sc["m"].as_u64().unwrap_or(1).max(1);
                let calls = (sc["n"].as_u64().unwrap_or(1) / m).max(1);
                let sep = sc["sep"].as_u64().unwrap_or(0) as usize;
                let mut vocab: Vec<Tok> = (0..=255u8).map(|b| Tok { v: vec![b], s: -10.0, keep: true }).collect();
                vocab.push(Tok { v: word.as_bytes().to_vec(), s: -1.0, keep: false });
                let f = TokFile { vocab, ..Default::default() };
                let text = (word.clone() + &".".repeat(sep)).repeat(m as usize);
                let op = if sc["ordinary"] == true { "encode_ordinary_batch" } else { "encode_batch" };
                let ops = [new_op(0, &f), json!({"op": op, "texts": vec![text; calls as usize], "p": p})];
                let (run, res) = c.driver(&sim, &json!(ops))?;
                alive(&run, &res, 2)?;
                let order = vec![0; m as usize];
                let (mut x, mut n) = (0, 0);
                for v in okv(&res[1], "batch")?.as_array().cloned().unwrap_or_default() {
                    let ids = ids_of(&v).unwrap_or_default();
                    let o = outcome(&ids, &[word.as_bytes().to_vec()], &order, sep).ok_or_else(|| viol("not-lossless", format!("{} ids are neither the word nor its bytes", ids.len())))?;
                    if n < 40_000 && m >= 1000 {
                        if let Some(e) = far("one text", &o, p) {
                            return Err(viol("distribution", e));
                        }
                    }
                    x += o.iter().filter(|k| !**k).count() as u64;
                    n += m;
                }
                ensure!(n == calls * m, "batch-length", "{} of {calls} results", n / m);
                ensure!(!improbable(x, n, p, NATS), "distribution", "{x} of {n} occurrences of {word:?} dropped at rate {p}");
                c.probe("rate tests near 0 and 1");
                Ok(Verdict::Pass)
            }
            _ => {
                let words = strs(&sc["words"]);
                let scores: Vec<f64> = sc["!scores"].as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect()).unwrap_or_default();
                let text = sc["text"].as_str().unwrap_or("").to_string();
                let calls = sc["calls"].as_u64().unwrap_or(100);
                let mut vocab: Vec<Tok> = (0..=255u8).map(|b| Tok { v: vec![b], s: -9.0 - b as f64 / 512.0, keep: true }).collect();
                for (w, s) in words.iter().zip(&scores) {
                    if w.len() > 1 {
                        vocab.push(Tok { v: w.as_bytes().to_vec(), s: *s, keep: false });
                    }
                }
                let f = TokFile { vocab, ..Default::default() };
                // every pattern of dropped occurrences gives an outcome
                let trie = Trie::new(&f.vocab);
                let b = text.as_bytes();
                let mut occ: Vec<(usize, u32)> = vec![];
                for i in 0..b.len() {
                    trie.prefixes(&b[i..], |id, l| {
                        if l > 1 {
                            occ.push((i, id));
                        }
                    });
                }
                if occ.is_empty() || occ.len() > 10 {
                    return Ok(Verdict::Skip("nothing to drop"));
                }
                let mut dist: BTreeMap<Vec<u32>, f64> = BTreeMap::new();
                for mask in 0..1u32 << occ.len() {
                    let mut pr = 1.0;
                    // best path over the arcs left
                    let n = b.len();
                    let mut best: Vec<Option<(f64, usize, u32)>> = vec![None; n + 1];
                    best[0] = Some((0.0, 0, 0));
                    for i in 0..n {
                        let base = best[i].unwrap().0;
                        let mut arcs = vec![(b[i] as u32, 1usize)];
                        for (k, (pos, id)) in occ.iter().enumerate() {
                            if *pos == i && mask >> k & 1 == 0 {
                                arcs.push((*id, f.vocab[*id as usize].v.len()));
                            }
                        }
                        for (id, l) in arcs {
                            let s = base + f.vocab[id as usize].s;
                            if let Some(o) = best[i + l] {
                                if (o.0 - s).abs() < 1e-9 {
                                    return Ok(Verdict::Skip("equally good segmentations"));
                                }
                            }
                            if best[i + l].map_or(true, |o| s > o.0) {
                                best[i + l] = Some((s, i, id));
                            }
                        }
                    }
                    for k in 0..occ.len() {
                        pr *= if mask >> k & 1 == 1 { p } else { 1.0 - p };
                    }
                    let mut ids = vec![];
                    let mut q = n;
                    while q > 0 {
                        let x = best[q].unwrap();
                        ids.push(x.2);
                        q = x.1;
                    }
                    ids.reverse();
                    *dist.entry(ids).or_default() += pr;
                }
                let rep = json!({"op": "repeat", "n": calls, "text": text, "p": p, "ordinary": true});
                let mut ops = vec![new_op(0, &f), json!({"op": "par", "threads": vec![vec![rep.clone()]; nth.max(1)]})];
                ops.push(json!({"op": "encode_batch", "texts": vec![text.clone(); calls as usize], "p": p}));
                let (run, res) = c.driver(&sim, &json!(ops))?;
                alive(&run, &res, ops.len())?;
                let mut seen: BTreeMap<Vec<u32>, u64> = BTreeMap::new();
                let mut n = 0;
                let par = res[1]["par"].as_array().cloned().unwrap_or_default();
                for v in par.iter().map(|t| &t[0]).chain([&res[2]]) {
                    for x in okv(v, "encode")?.as_array().cloned().unwrap_or_default() {
                        let ids = ids_of(&x).unwrap_or_default();
                        ensure!(dist.contains_key(&ids), "not-lossless", "{ids:?} is no outcome of dropping occurrences from {text:?}");
                        *seen.entry(ids).or_default() += 1;
                        n += 1;
                    }
                }
                for (ids, pr) in &dist {
                    let x = seen.get(ids).copied().unwrap_or(0);
                    ensure!(!improbable(x, n, *pr, NATS), "distribution", "{text:?} at rate {p}: segmentation {ids:?} seen {x} times in {n}, probability {pr:.4}");
                }
                c.probe("joint distributions");
                Ok(Verdict::Pass)
            }
        }
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the scheduler made at least one decision in it that differs from running the threads in order; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the whole library, rayon and the rand crate, as compiled from /repo", "client program (driver); entropy, locks, threads, clock and allocation run on the simulator's emulated kernel interface")
    }
}
