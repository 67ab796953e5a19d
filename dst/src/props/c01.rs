//! Batch calls equal one-at-a-time calls.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::tgx::{Ref, TokFile};
use crate::util::*;
use serde_json::json;

pub struct C01;
fn tok_round(r: &mut Rng, pool: &[String], special: &[String], thorough: bool) -> Vec<String> {
    let shape = r.below(12);
    let n = match shape {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=7 => r.range(2, 24),
        8 | 9 => r.range(20, 90),
        _ => r.range(100, if thorough { 1500 } else { 350 }),
    };
    let big = r.chance(4);
    let mut v = vec![];
    for i in 0..n {
        let mut t = match r.below(8) {
            0 => String::new(),
            1 => r.pick(pool).clone(),
            2 => format!("{i} {}", text(r, pool, 3)),
            _ => mixed_text(r, pool, special, if n > 60 { 3 } else { 12 }),
        };
        if big && i < 2 {
            let w = text(r, pool, 40) + "ab";
            while t.len() < 70_000 {
                t += &w;
            }
        }
        v.push(t);
    }
    if r.chance(12) && v.len() > 1 {
        // texts of one length that differ at one place only
        let mut t = text(r, pool, 12);
        t += r.pick(pool);
        let w = t.clone();
        while r.chance(75) && t.len() < 3000 {
            t += &w;
        }
        let at = (0..=t.len()).filter(|&k| t.is_char_boundary(k)).collect::<Vec<_>>();
        let any = r.below(at.len());
        let k = *r.pick(&[at.len() - 1, at.len() / 2, any]);
        for _ in 0..r.range(2, 6) {
            let i = r.below(v.len());
            let mut x = t.clone();
            x.insert_str(at[k], r.pick(&["0", "1", "a", "b", " "]));
            v[i] = x;
        }
    }
    if r.chance(20) && !v.is_empty() {
        let t = r.pick(&v).clone();
        for _ in 0..r.below(4) {
            let i = r.below(v.len());
            v[i] = t.clone();
        }
    }
    v
}
/// Batches of very many items, made from a few different ones.
fn huge(sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
    let n = sc["n"].as_u64().unwrap_or(1) as usize;
    let salt = sc["salt"].as_u64().unwrap_or(0);
    let k = sc["op"].as_u64().unwrap_or(0) as usize % 4;
    let bad = sc["bad"].as_u64().map(|b| b as usize);
    let mut vocab: Vec<crate::tgx::Tok> = (0..=255u8).filter(|b| *b != b'q').map(|b| crate::tgx::Tok { v: vec![b], s: -8.0, keep: true }).collect();
    for (i, w) in ["ab", "bc", "abc", "ca"].iter().enumerate() {
        vocab.push(crate::tgx::Tok { v: w.as_bytes().to_vec(), s: -3.0 - i as f64 / 4.0, keep: false });
    }
    let f = TokFile { vocab, special: vec!["<s>".into()], ..Default::default() };
    let kinds = ["a", "abc", "", "cab<s>", "bcabc", "xyz", "ab"];
    let which = |i: usize| (i as u64 * 2_654_435_761 + (i as u64 >> 7) * salt) as usize % kinds.len();
    let idk: Vec<Vec<u32>> = vec![vec![97], vec![256, 257], vec![], vec![259], vec![255, 98, 99], vec![258], vec![100, 101]];
    let mut ops = vec![new_op(0, &f)];
    for j in 0..kinds.len() {
        ops.push(match k {
            0 => json!({"op": "encode", "text": kinds[j], "p": 0.0}),
            1 => json!({"op": "encode_ordinary", "text": kinds[j], "p": 0.0}),
            _ => json!({"op": "decode", "ids": idk[j], "special": k == 2}),
        });
    }
    ops.push(if k < 2 {
        let t: Vec<&str> = (0..n).map(|i| if bad == Some(i) { "abqab" } else { kinds[which(i)] }).collect();
        json!({"op": if k == 0 { "encode_batch" } else { "encode_ordinary_batch" }, "texts": t, "p": 0.0})
    } else {
        let unknown = vec![97, 4000];
        let t: Vec<&Vec<u32>> = (0..n).map(|i| if bad == Some(i) { &unknown } else { &idk[which(i)] }).collect();
        json!({"op": "decode_batch", "ids": t, "special": k == 2})
    });
    let (run, res) = c.driver(&cfg_of(&sc["sim"]), &json!(ops))?;
    alive(&run, &res, ops.len())?;
    okv(&res[0], "new")?;
    let m = Ref::new(&f);
    let one = &res[1..=kinds.len()];
    for (j, v) in one.iter().enumerate() {
        let o = okv(v, "a single call")?;
        if k < 2 {
            if let Some(e) = m.check_encode(kinds[j], k == 1, ids_of(o).as_deref(), true) {
                return Err(viol("single", e));
            }
        } else {
            ensure!(o.as_str().map(|s| s.to_string()) == m.decode(&idk[j], k == 2).ok(), "single", "decode of {:?}: {v}", idk[j]);
        }
    }
    let got = &res[kinds.len() + 1];
    if bad.is_some() {
        ensure!(got.get("err").is_some(), "batch-error", "a batch of {n} items, one of which fails, gives {}", clip(&got.to_string(), 100));
        return Ok(Verdict::Pass);
    }
    let a = got["ok"].as_array().ok_or_else(|| viol("batch-failed", format!("a batch of {n} items that all succeed: {}", clip(&got.to_string(), 200))))?;
    ensure!(a.len() == n, "batch-length", "a batch of {n} items returned {}", a.len());
    for (i, x) in a.iter().enumerate() {
        ensure!(*x == one[which(i)]["ok"], "batch-differs", "item {i} of {n}: {}, alone: {}", clip(&x.to_string(), 100), one[which(i)]["ok"]);
    }
    c.probe("batches of 4096 items or more");
    Ok(Verdict::Pass)
}
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        if r.chance(1) {
            // more items than fit 12, 15 or 16 bits
            let mut sim = sched(r);
            sim.insert("mean".into(), json!(*r.pick(&[300u64, 3000])));
            let n = *r.pick(&[4096usize, 5000, 20_000, 32_768, 65_536, if thorough { 150_000 } else { 65_537 }]);
            let bad = if r.chance(15) { json!(r.below(n)) } else { Value::Null };
            return json!({"kind": "huge", "sim": sim, "n": n + r.below(5), "salt": r.below(1_000_000), "op": r.below(4), "bad": bad});
        }
        let pool = pool(r);
        let special = if r.chance(10) { (0..r.range(20, 60)).map(|i| format!("<|{i}|>")).collect() } else { specials(r, 4) };
        let mut vocab = vocab(r, &pool, 40, false);
        if r.chance(10) {
            // a very long token
            let w: String = (0..40).map(|_| r.pick(&pool).as_str()).collect::<String>() + "0123456789";
            let l: Vec<u8> = w.bytes().cycle().take(300).collect();
            let s = score(r);
            vocab.push(crate::tgx::Tok { v: l, s, keep: false });
        }
        let mut texts = tok_round(r, &pool, &special, thorough);
        let failing = r.chance(30) && !texts.is_empty();
        if failing {
            // no token for this byte: some items cannot be encoded
            vocab.retain(|t| !t.v.contains(&b'q'));
            for t in texts.iter_mut() {
                *t = t.replace('q', "");
            }
            for _ in 0..*r.pick(&[1usize, 1, 2, 5]) {
                let i = r.below(texts.len());
                let t = &mut texts[i];
                let at = (0..=t.len()).filter(|&k| t.is_char_boundary(k)).collect::<Vec<_>>();
                let k = *r.pick(&at);
                t.insert(k, 'q');
            }
        }
        let badids = r.chance(30);
        let extra = vocab.len() as u64 + special.len() as u64;
        let ids: Vec<Value> = (0..r.below(30))
            .map(|_| {
                let n = r.below(14);
                json!((0..n).map(|_| if badids && r.chance(3) { extra + r.below(5) as u64 } else { r.below(extra as usize) as u64 }).collect::<Vec<_>>())
            })
            .collect();
        let mut sim = sched(r);
        if r.chance(5) {
            sim.insert("threads".into(), json!(16));
        }
        let clients: Vec<Value> = if r.chance(60) {
            (0..r.range(2, 4)).map(|_| json!((0..r.range(1, 4)).map(|_| if r.chance(40) { r.range(6, 11) } else { r.below(6) }).collect::<Vec<_>>())).collect()
        } else {
            vec![]
        };
        // a second tokenizer in the same process, and a change between two batches
        let other: Vec<crate::tgx::Tok> = if r.chance(20) {
            // as many tokens, in another order
            let mut v = vocab.clone();
            r.shuffle(&mut v);
            v
        } else if r.chance(30) {
            crate::gen::vocab(r, &pool, 15, false)
        } else {
            vec![]
        };
        let add = if r.chance(40) { json!({"special": ["<+new+>", "ab"], "base": toks_json(&[crate::tgx::Tok { v: b"\x01new".to_vec(), s: -1.0, keep: false }])}) } else { Value::Null };
        let mut sc = json!({"sim": sim, "vocab": toks_json(&vocab), "procs": procs(r), "special": special, "texts": texts, "ids": ids, "clients": clients,
               "other": toks_json(&other), "add": add, "python": r.chance(12)});
        if r.chance(1) {
            let (n, t) = fill(r);
            sc["fill"] = json!(n);
            sc["texts"].as_array_mut().unwrap().push(json!(t));
        }
        sc
    }
    fn pinned(&self) -> Vec<Value> {
        let b: Vec<crate::tgx::Tok> = (0..=255u8).map(|b| crate::tgx::Tok { v: vec![b], s: -8.0, keep: true }).collect();
        vec![json!({"sim": {"seed": 1, "mode": 1, "mean": 3, "threads": 4, "ncpu": 4, "tick": 1000}, "vocab": toks_json(&b), "procs": ["crlf"], "special": ["<s>"],
            "texts": ["a<s>b", "", "c\r\nd"], "ids": [[97, 256], []], "clients": [[0, 2], [1, 3]], "other": [], "add": null})]
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let sim = cfg_of(&sc["sim"]);
        if sc["kind"] == "huge" {
            return huge(sc, c);
        }
        let f = tokfile(sc);
        let texts = strs(&sc["texts"]);
        let ids: Vec<Vec<u32>> = sc["ids"].as_array().map(|a| a.iter().filter_map(ids_of).collect()).unwrap_or_default();
        let other = TokFile { vocab: toks_of(&sc["other"]), ..Default::default() };
        let py = sc["python"] == true;
        let mut ops = vec![start_op(py, 0, &f)];
        let mut tag: Vec<(&str, u64)> = vec![];
        if !other.vocab.is_empty() {
            ops.push(start_op(py, 1, &other));
        }
        let base = ops.len();
        // phases: slot 0, slot 1 (if any), slot 0 changed (if asked)
        let mut phases: Vec<(u64, TokFile)> = vec![(0, f.clone())];
        if !other.vocab.is_empty() {
            phases.push((1, other.clone()));
            phases.push((0, f.clone()));
        }
        if sc["add"].is_object() {
            let mut g = f.clone();
            for s in strs(&sc["add"]["special"]) {
                if !g.special.contains(&s) {
                    g.special.push(s);
                }
            }
            for t in toks_of(&sc["add"]["base"]) {
                if !py && !g.vocab.iter().any(|x| x.v == t.v) {
                    g.vocab.push(t);
                }
            }
            phases.push((9, g));
        }
        let batch = |k: usize, slot: u64| match k {
            0 => json!({"op": "encode_batch", "slot": slot, "texts": texts, "p": 0.0}),
            1 => json!({"op": "encode_ordinary_batch", "slot": slot, "texts": texts, "p": 0.0}),
            2 => json!({"op": "decode_batch", "slot": slot, "ids": ids, "special": true}),
            _ => json!({"op": "decode_batch", "slot": slot, "ids": ids, "special": false}),
        };
        for (ph, (slot, g)) in phases.iter().enumerate() {
            let s = if *slot == 9 { 0 } else { *slot };
            if *slot == 9 {
                let newb: Vec<_> = g.vocab[f.vocab.len()..].to_vec();
                ops.push(json!({"op": "add_special", "slot": 0, "tokens": sc["add"]["special"]}));
                tag.push(("add", 0));
                if !py {
                    ops.push(json!({"op": "add_base", "slot": 0, "tokens": toks_json(&newb)}));
                    tag.push(("add", 0));
                }
            }
            let full = ph == 0 || *slot == 9;
            // on later visits only the batch itself: what was seen before must not matter
            if full || ph == 1 {
                for t in &texts {
                    ops.push(json!({"op": "encode", "slot": s, "text": t, "p": 0.0}));
                    tag.push(("e", ph as u64));
                    ops.push(json!({"op": "encode_ordinary", "slot": s, "text": t, "p": 0.0}));
                    tag.push(("o", ph as u64));
                }
                for i in &ids {
                    ops.push(json!({"op": "decode", "slot": s, "ids": i, "special": true}));
                    tag.push(("d", ph as u64));
                    ops.push(json!({"op": "decode", "slot": s, "ids": i, "special": false}));
                    tag.push(("x", ph as u64));
                }
            }
            for k in 0..4 {
                ops.push(batch(k, s));
                tag.push((["E", "O", "D", "X"][k], ph as u64));
            }
        }
        // batches of one half of the items: (operation, from, to)
        let part = |k: u64| {
            let kind = (k as usize - 6) / 2 % 3;
            let n = if kind == 2 { ids.len() } else { texts.len() };
            if k % 2 == 0 {
                (kind, 0, n / 2)
            } else {
                (kind, n / 2, n)
            }
        };
        let clients: Vec<Vec<u64>> = sc["clients"].as_array().map(|a| a.iter().map(|x| x.as_array().map(|y| y.iter().filter_map(|z| z.as_u64()).collect()).unwrap_or_default()).collect()).unwrap_or_default();
        if !clients.is_empty() {
            let th: Vec<Value> = clients
                .iter()
                .enumerate()
                .map(|(ci, ks)| {
                    json!(ks
                        .iter()
                        .map(|&k| if k < 4 {
                            batch(k as usize, 0)
                        } else if k >= 6 {
                            let (kind, a, b) = part(k);
                            match kind {
                                0 => json!({"op": "encode_batch", "slot": 0, "texts": texts[a..b], "p": 0.0}),
                                1 => json!({"op": "encode_ordinary_batch", "slot": 0, "texts": texts[a..b], "p": 0.0}),
                                _ => json!({"op": "decode_batch", "slot": 0, "ids": ids[a..b], "special": true}),
                            }
                        } else if texts.is_empty() {
                            json!({"op": "sizes", "slot": 0})
                        } else {
                            json!({"op": if k == 4 { "encode" } else { "encode_ordinary" }, "slot": 0, "text": texts[(ci * 7 + k as usize) % texts.len()], "p": 0.0})
                        })
                        .collect::<Vec<_>>())
                })
                .collect();
            ops.push(json!({"op": "par", "threads": th}));
            tag.push(("par", (phases.len() - 1) as u64));
        }
        let n = ops.len();
        let (run, res) = c.client(py, &sim, &json!(ops))?;
        alive(&run, &res, n)?;
        for v in &res[..base] {
            okv(v, "new")?;
        }
        let res = &res[base..];
        // what single calls give, checked against the model; then the batches against those
        let mut singles: Vec<Option<[Vec<Value>; 4]>> = vec![None; phases.len()];
        let same_tok = |a: usize, b: usize| phases[a].0 == phases[b].0;
        for (ph, p) in phases.iter().enumerate() {
            if ph <= 1 || p.0 == 9 {
                singles[ph] = Some(Default::default());
            }
        }
        for (i, (t, ph)) in tag.iter().enumerate() {
            let ph = *ph as usize;
            let k = match *t {
                "e" => 0,
                "o" => 1,
                "d" => 2,
                "x" => 3,
                _ => continue,
            };
            singles[ph].get_or_insert_with(Default::default)[k].push(bare(&res[i]));
        }
        for ph in 0..phases.len() {
            if let Some(s) = &singles[ph] {
                let m = Ref::new(&phases[ph].1);
                for k in 0..2 {
                    for (t, v) in texts.iter().zip(&s[k]) {
                        let got = match (v.get("ok"), v["err"].as_str()) {
                            (Some(o), _) => ids_of(o),
                            (_, Some(e)) if if py { e == "tokengeex" } else { e.starts_with("nopath") } => None,
                            _ => return Err(viol("single", format!("encode of {:?}: {}", clip(t, 60), clip(&v.to_string(), 120)))),
                        };
                        if let Some(p) = m.check_encode(t, k == 1, got.as_deref(), true) {
                            return Err(viol("single", p));
                        }
                    }
                }
                for k in 2..4 {
                    for (t, v) in ids.iter().zip(&s[k]) {
                        match m.decode(t, k == 2) {
                            Ok(x) => ensure!(v["ok"].as_str() == Some(&x), "single", "decode of {t:?}: {}, expected {x:?}", clip(&v.to_string(), 120)),
                            Err(b) => ensure!(b.iter().any(|i| v["err"] == if py { "tokengeex".into() } else { format!("oob:{i}") }), "single", "decode of {t:?} with unknown ids {b:?}: {v}"),
                        }
                    }
                }
            }
        }
        let check = |what: &str, ph: usize, k: usize, part: Option<(usize, usize)>, got: &Value| -> Result<(), Verdict> {
            let src = (0..=ph).rev().find(|&p| same_tok(p, ph) && singles[p].is_some()).unwrap_or(ph);
            let want = &singles[src].as_ref().unwrap()[k];
            let (a, b) = part.unwrap_or((0, want.len()));
            let want = &want[a..b];
            let errs: Vec<&Value> = want.iter().filter(|v| v.get("ok").is_none()).collect();
            if !errs.is_empty() {
                let e = bare(got);
                ensure!(
                    errs.iter().any(|x| **x == e),
                    "batch-error",
                    "{what} of {} items, {} of which fail ({}): {}",
                    want.len(),
                    errs.len(),
                    clip(&errs[0].to_string(), 80),
                    clip(&e.to_string(), 160)
                );
                return Ok(());
            }
            let Some(a) = got["ok"].as_array() else {
                return Err(viol("batch-failed", format!("{what} of {} items that all succeed: {}", want.len(), clip(&bare(got).to_string(), 200))));
            };
            ensure!(a.len() == want.len(), "batch-length", "{what} of {} items returned {}", want.len(), a.len());
            for (i, (x, w)) in a.iter().zip(want).enumerate() {
                ensure!(*x == w["ok"], "batch-differs", "{what}, item {i} of {}: {}, alone: {}", want.len(), clip(&x.to_string(), 100), clip(&w["ok"].to_string(), 100));
            }
            Ok(())
        };
        let names = ["encode_batch", "encode_ordinary_batch", "decode_batch", "decode_batch without special tokens"];
        for (i, (t, ph)) in tag.iter().enumerate() {
            let ph = *ph as usize;
            match *t {
                "E" | "O" | "D" | "X" => {
                    let k = ["E", "O", "D", "X"].iter().position(|x| x == t).unwrap();
                    check(names[k], ph, k, None, &res[i])?;
                    c.probe("batches");
                    if res[i].get("ok").is_none() {
                        c.probe("failing batches");
                    }
                }
                "par" => {
                    let Some(th) = res[i]["par"].as_array() else {
                        return Err(viol("died", format!("{}", clip(&res[i].to_string(), 200))));
                    };
                    // clients use slot 0 in its last state
                    let ph = (0..phases.len()).rev().find(|&p| phases[p].0 != 1).unwrap();
                    for (ci, (ks, rs)) in clients.iter().zip(th).enumerate() {
                        ensure!(rs.as_array().map_or(0, |a| a.len()) == ks.len(), "died", "client {ci}: {rs}");
                        for (&k, got) in ks.iter().zip(rs.as_array().unwrap()) {
                            if k < 4 {
                                check(&format!("concurrent {}", names[k as usize]), ph, k as usize, None, got)?;
                                c.probe("concurrent batches");
                            } else if k >= 6 {
                                let (kind, a, b) = part(k);
                                check(&format!("concurrent {} of a part", names[kind]), ph, kind, Some((a, b)), got)?;
                                c.probe("concurrent batches");
                            } else if !texts.is_empty() {
                                let src = (0..=ph).rev().find(|&p| same_tok(p, ph) && singles[p].is_some()).unwrap();
                                let w = &singles[src].as_ref().unwrap()[k as usize - 4][(ci * 7 + k as usize) % texts.len()];
                                ensure!(bare(got) == *w, "concurrent-single", "concurrent encode: {}, alone: {}", clip(&bare(got).to_string(), 100), clip(&w.to_string(), 100));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if py {
            c.probe("histories in Python");
        }
        if texts.iter().any(|t| t.len() > 65_536) {
            c.probe("items over 64 KiB");
        }
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the scheduler made at least one decision in it that differs from running the threads in order; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the whole library and rayon's thread pool, as compiled from /repo", "client program (driver); locks, threads, clock, entropy and allocation run on the simulator's emulated kernel interface")
    }
}
