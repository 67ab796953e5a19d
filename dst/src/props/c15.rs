//! Histories of a tokenizer against a sequential model.
use super::*;
use crate::ensure;
use crate::frame::Ctx;
use crate::gen::*;
use crate::tgx::{parse_file, Ref, Tok, TokFile};
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;

pub struct C15;
const SLOTS: usize = 4;

struct G<'a> {
    r: &'a mut Rng,
    pool: Vec<String>,
    specials: Vec<String>,
    fresh: Vec<Vec<u8>>,
    used: Vec<Vec<u8>>,
    top: usize,
    /// this segment runs in Python, where base tokens cannot be added
    py: bool,
}
impl G<'_> {
    fn id(&mut self) -> u64 {
        match self.r.below(10) {
            0 => self.r.below(10) as u64,
            1 => *self.r.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, 100_000]),
            2 | 3 => self.r.below(self.top + 4) as u64,
            4 => self.r.below(256) as u64,
            // around the border between base and special ids
            _ => (256 + self.r.below(self.top.saturating_sub(250) + 8)) as u64,
        }
    }
    fn ids(&mut self) -> Vec<u64> {
        let n = self.r.below(8);
        let wild = self.r.chance(25);
        (0..n).map(|_| if wild { self.id() } else { self.r.below(self.top.max(1)) as u64 }).collect()
    }
    fn token(&mut self) -> String {
        let r = &mut *self.r;
        let b: Vec<u8> = match r.below(6) {
            0 => vec![r.below(256) as u8],
            1 if !self.specials.is_empty() => r.pick(&self.specials).clone().into_bytes(),
            2 => r.pick(&self.pool).clone().into_bytes(),
            3 if !self.used.is_empty() => r.pick(&self.used).clone(),
            4 if !self.fresh.is_empty() => r.pick(&self.fresh).clone(),
            _ => vec![],
        };
        hex(&b)
    }
    fn text(&mut self) -> String {
        let s = self.specials.clone();
        let mut t = mixed_text(self.r, &self.pool, &s, 6);
        if self.r.chance(20) && !self.used.is_empty() {
            t += &String::from_utf8_lossy(self.r.pick(&self.used));
        }
        t
    }
    fn mutate(&mut self, slot: usize) -> Value {
        if !self.py && self.r.chance(50) && !self.fresh.is_empty() {
            let n = self.r.range(1, 4).min(self.fresh.len());
            let v: Vec<Vec<u8>> = self.fresh.drain(..n).collect();
            self.top += v.len();
            let t: Vec<Tok> = v.iter().map(|v| Tok { v: v.clone(), s: score(self.r), keep: self.r.chance(20) }).collect();
            self.used.extend(v);
            json!({"op": "add_base", "slot": slot, "tokens": toks_json(&t)})
        } else {
            let mut v: Vec<String> = (0..self.r.range(1, 4)).map(|_| self.r.pick(&self.specials).clone()).collect();
            if self.r.chance(15) {
                v.push(String::new());
            }
            self.top += 1;
            json!({"op": "add_special", "slot": slot, "tokens": v})
        }
    }
    fn query(&mut self, slot: usize) -> Value {
        let mut o = match self.r.below(18) {
            0 | 1 => json!({"op": "encode", "text": self.text()}),
            2 => json!({"op": "encode_ordinary", "text": self.text()}),
            3 => {
                let n = self.r.below(6);
                json!({"op": *self.r.pick(&["encode_batch", "encode_ordinary_batch"]), "texts": (0..n).map(|_| self.text()).collect::<Vec<_>>()})
            }
            4 | 5 => json!({"op": "decode", "ids": self.ids(), "special": self.r.chance(50)}),
            6 => {
                let n = self.r.below(5);
                json!({"op": "decode_batch", "ids": (0..n).map(|_| self.ids()).collect::<Vec<_>>(), "special": self.r.chance(50)})
            }
            7 => json!({"op": "token_to_id", "token": self.token()}),
            8 => json!({"op": "base_token_to_id", "token": self.token()}),
            9 => json!({"op": "special_token_to_id", "token": if self.r.chance(80) { self.r.pick(&self.specials).clone() } else { "nope".into() }}),
            10 => json!({"op": "id_to_token", "id": self.id()}),
            11 => json!({"op": "id_to_base_token", "id": self.id()}),
            12 => json!({"op": "id_to_special_token", "id": self.id()}),
            13 => json!({"op": "is_special", "id": self.id()}),
            14 => json!({"op": "is_base", "id": self.id()}),
            15 => json!({"op": "sizes"}),
            16 => json!({"op": "special_tokens"}),
            _ => {
                let t: String = self.text().chars().take(8).collect();
                json!({"op": "prefix", "token": hex(t.as_bytes()), "text": t})
            }
        };
        o["slot"] = json!(slot);
        o
    }
}

fn special_add(f: &mut TokFile, v: &[String]) {
    for s in v {
        if !s.is_empty() && !f.special.contains(s) {
            f.special.push(s.clone());
        }
    }
}
/// What one operation has to return, given the state it met.
fn judge(f: &TokFile, o: &Value, r: &Value, py: bool) -> Result<(), Verdict> {
    let rf = Ref::new(f);
    let nv = f.vocab.len();
    let op = o["op"].as_str().unwrap_or("");
    let id = o["id"].as_u64().unwrap_or(0) as usize;
    let show = || format!("{} with {nv} base and {} special tokens gives {}", clip(&bare(o).to_string(), 200), f.special.len(), clip(&bare(r).to_string(), 200));
    let eq = |want: Value| -> Result<(), Verdict> {
        ensure!(r.get("ok") == Some(&want), op, "{}; expected {}", show(), clip(&want.to_string(), 200));
        Ok(())
    };
    let enc = |t: &str, ordinary: bool, v: Option<&Value>| -> Result<(), Verdict> {
        let ids = v.and_then(ids_of);
        match rf.check_encode(t, ordinary, ids.as_deref(), true) {
            Some(e) => Err(viol(op, format!("{}: {e}", show()))),
            None => Ok(()),
        }
    };
    let oob = |b: &u32| if py { "tokengeex".to_string() } else { format!("oob:{b}") };
    let base_id = |t: &[u8]| rf.trie.get(t);
    let special_id = |t: &[u8]| f.special.iter().position(|s| s.as_bytes() == t).map(|k| (nv + k) as u32);
    match op {
        "encode" | "encode_ordinary" => enc(o["text"].as_str().unwrap_or(""), op == "encode_ordinary", r.get("ok")),
        "encode_batch" | "encode_ordinary_batch" => {
            let t = strs(&o["texts"]);
            let Some(a) = r.get("ok").and_then(|v| v.as_array()) else {
                return Err(viol(op, show()));
            };
            ensure!(a.len() == t.len(), op, "{}", show());
            for (t, v) in t.iter().zip(a) {
                enc(t, op == "encode_ordinary_batch", Some(v))?;
            }
            Ok(())
        }
        "decode" => {
            let ids = ids_of(&o["ids"]).unwrap_or_default();
            match rf.decode(&ids, o["special"] == true) {
                Ok(t) => eq(json!(t)),
                Err(bad) => {
                    let e = r["err"].as_str().unwrap_or("");
                    ensure!(bad.iter().any(|b| e == oob(b)), op, "{}; expected an error for an id of {bad:?}", show());
                    Ok(())
                }
            }
        }
        "decode_batch" => {
            let l: Vec<_> = o["ids"].as_array().cloned().unwrap_or_default().iter().map(|i| rf.decode(&ids_of(i).unwrap_or_default(), o["special"] == true)).collect();
            let bad: Vec<u32> = l.iter().filter_map(|x| x.as_ref().err()).flatten().copied().collect();
            if bad.is_empty() {
                eq(json!(l.into_iter().map(|x| x.unwrap()).collect::<Vec<_>>()))
            } else {
                let e = r["err"].as_str().unwrap_or("");
                ensure!(bad.iter().any(|b| e == oob(b)), op, "{}; expected an error for an id of {bad:?}", show());
                Ok(())
            }
        }
        "token_to_id" => {
            let t = unhex(o["token"].as_str().unwrap_or("")).unwrap_or_default();
            match (base_id(&t), special_id(&t)) {
                (Some(a), Some(b)) => {
                    ensure!(r["ok"] == json!(a) || r["ok"] == json!(b), op, "{}", show());
                    Ok(())
                }
                (a, b) => eq(json!(a.or(b))),
            }
        }
        "base_token_to_id" => eq(json!(base_id(&unhex(o["token"].as_str().unwrap_or("")).unwrap_or_default()))),
        "special_token_to_id" => eq(json!(special_id(o["token"].as_str().unwrap_or("").as_bytes()))),
        "id_to_token" => eq(json!(if id < nv { Some(hex(&f.vocab[id].v)) } else { f.special.get(id - nv).map(|s| hex(s.as_bytes())) })),
        "id_to_base_token" if py => eq(if id < nv { json!([hex(&f.vocab[id].v), bits(f.vocab[id].s)]) } else { Value::Null }),
        "id_to_base_token" => eq(if id < nv { tok_json(&f.vocab[id]) } else { Value::Null }),
        "id_to_special_token" => eq(json!(if id < nv { None } else { f.special.get(id - nv) })),
        "is_special" => eq(json!(id >= nv && id < nv + f.special.len())),
        "is_base" => eq(json!(id < nv)),
        "sizes" => eq(json!([nv + f.special.len(), nv, f.special.len()])),
        "special_tokens" => eq(json!(f.special)),
        "prefix" => {
            let mut v = vec![];
            rf.trie.prefixes(&unhex(o["token"].as_str().unwrap_or("")).unwrap_or_default(), |i, l| v.push(if py { json!(i) } else { json!([i, l]) }));
            eq(json!(v))
        }
        "dump" if py => eq(json!({
            "vocab": f.vocab.iter().map(|t| json!([hex(&t.v), bits(t.s)])).collect::<Vec<_>>(), "special": f.special,
            "sizes": [nv + f.special.len(), nv, f.special.len()],
        })),
        "dump" => eq(json!({
            "vocab": toks_json(&f.vocab), "special": f.special, "processors": f.procs,
            "sizes": [nv + f.special.len(), nv, f.special.len()],
        })),
        _ => {
            ensure!(r["ok"] == true, op, "{}", show());
            Ok(())
        }
    }
}
fn apply(f: &mut TokFile, o: &Value) -> bool {
    match o["op"].as_str().unwrap_or("") {
        "add_base" => f.vocab.extend(toks_of(&o["tokens"])),
        "add_special" => special_add(f, &strs(&o["tokens"])),
        _ => return false,
    }
    true
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Value {
        let pool = pool(r);
        let nv = r.range(0, 15);
        let v = vocab(r, &pool, nv, false);
        let mut specials_all = vec![];
        for _ in 0..4 {
            for s in specials(r, 6) {
                if specials_all.iter().all(|x: &String| !x.starts_with(&s) && !s.starts_with(x.as_str())) {
                    specials_all.push(s);
                }
            }
        }
        if specials_all.is_empty() {
            specials_all.push("<|eos|>".into());
        }
        let init: Vec<String> = (0..r.below(4)).map(|_| r.pick(&specials_all).clone()).collect();
        let mut fresh: Vec<Vec<u8>> = tokens(r, &pool, 40, false).into_iter().filter(|t| v.iter().all(|x| &x.v != t)).collect();
        if r.chance(15) {
            // deeper than any other token
            fresh.push(r.pick(&pool).bytes().cycle().take(300).collect());
        }
        let (filled, few) = if r.chance(1) { fill(r) } else { Default::default() };
        let mut g = G { top: v.len() + filled as usize + init.len(), r, pool, specials: specials_all, fresh, py: false, used: v.iter().filter(|t| t.v.len() > 1).map(|t| t.v.clone()).collect() };
        let mut segs = vec![];
        let mut live = vec![0usize];
        let nseg = if filled > 0 { 2 } else { g.r.range(1, 4) };
        if filled > 0 {
            for t in few.split_inclusive(';') {
                g.used.insert(0, t.as_bytes().to_vec());
            }
            g.used.truncate(12);
        }
        for s in 0..nseg {
            let mut ops = vec![];
            g.py = g.r.chance(12);
            if filled > 0 {
                ops.push(json!({"op": "encode", "slot": 0, "text": few}));
                ops.push(json!({"op": "encode_ordinary_batch", "slot": 0, "texts": [few, "", few]}));
            }
            for _ in 0..g.r.range(3, if filled > 0 { 6 } else if thorough { 40 } else { 20 }) {
                let slot = *g.r.pick(&live);
                if g.r.chance(4) {
                    // another tokenizer with as many tokens, in another order
                    let to = g.r.below(SLOTS);
                    if to != slot && to != 0 {
                        if !live.contains(&to) {
                            live.push(to);
                        }
                        let mut f = TokFile { vocab: v.clone(), special: (0..g.r.range(0, 3)).map(|_| g.r.pick(&g.specials).clone()).collect(), ..Default::default() };
                        g.r.shuffle(&mut f.vocab);
                        ops.push(start_op(g.py, to as u64, &f));
                    }
                }
                if g.r.chance(6) {
                    // a copy, and as many other tokens for each
                    let to = (slot + g.r.range(1, SLOTS - 1)) % SLOTS;
                    if !live.contains(&to) {
                        live.push(to);
                    }
                    let before = g.text();
                    ops.push(json!({"op": "encode", "slot": slot, "text": before}));
                    ops.push(json!({"op": if g.py { "copy" } else { "clone" }, "from": slot, "slot": to}));
                    let base = !g.py && g.r.chance(70) && g.fresh.len() > 6;
                    let k = g.r.range(1, 3);
                    let mut text = String::new();
                    for s in [slot, to] {
                        if base {
                            let v: Vec<Vec<u8>> = g.fresh.drain(..k).collect();
                            for t in &v {
                                text += &String::from_utf8_lossy(t);
                            }
                            g.top += k;
                            let t: Vec<Tok> = v.iter().map(|v| Tok { v: v.clone(), s: score(g.r), keep: false }).collect();
                            g.used.extend(v);
                            ops.push(json!({"op": "add_base", "slot": s, "tokens": toks_json(&t)}));
                        } else {
                            let v = g.r.pick(&g.specials).clone();
                            text += &v;
                            ops.push(json!({"op": "add_special", "slot": s, "tokens": [v]}));
                        }
                    }
                    for s in [slot, to, slot] {
                        ops.push(json!({"op": "encode", "slot": s, "text": text}));
                        ops.push(json!({"op": "encode", "slot": s, "text": before}));
                        ops.push(json!({"op": "encode_batch", "slot": s, "texts": [before, text]}));
                    }
                }
                match g.r.below(10) {
                    0 | 1 => ops.push(g.mutate(slot)),
                    2 => {
                        let to = g.r.below(SLOTS);
                        let op = *g.r.pick(&["clone", "restring"]);
                        let op = if g.py && op == "clone" { *g.r.pick(&["copy", "repickle"]) } else { op };
                        if to != slot {
                            if !live.contains(&to) {
                                live.push(to);
                            }
                            ops.push(json!({"op": op, "from": slot, "slot": to}));
                        }
                    }
                    3 => {
                        let p = format!("x{slot}.json");
                        ops.push(json!({"op": "save", "slot": slot, "path": p}));
                        if g.r.chance(60) {
                            let to = g.r.below(SLOTS);
                            if !live.contains(&to) {
                                live.push(to);
                            }
                            // loaded back at once, in place of another
                            ops.push(json!({"op": "load", "slot": to, "path": p, "from": slot}));
                        }
                    }
                    4 | 5 => {
                        let nt = g.r.range(2, 4);
                        let mut threads = vec![];
                        for _ in 0..nt {
                            let k = g.r.range(1, 6);
                            let mut t = vec![];
                            for _ in 0..k {
                                let slot = if g.r.chance(80) { slot } else { *g.r.pick(&live) };
                                t.push(if g.r.chance(40) { g.mutate(slot) } else { g.query(slot) });
                            }
                            threads.push(json!(t));
                        }
                        ops.push(json!({"op": "par", "threads": threads, "lock": true}));
                    }
                    _ => ops.push(g.query(slot)),
                }
            }
            for &l in &live {
                ops.push(json!({"op": "dump", "slot": l}));
                if s + 1 < nseg {
                    ops.push(json!({"op": "save", "slot": l, "path": format!("restart{l}.json")}));
                }
            }
            segs.push(json!({"ops": ops, "sim": sched(g.r), "python": g.py}));
        }
        let pr = procs(g.r);
        let mut sc = json!({"vocab": toks_json(&v), "procs": pr, "special": init, "segs": segs});
        if filled > 0 {
            sc["fill"] = json!(filled);
        }
        sc
    }
    fn exec(&self, sc: &Value, c: &mut Ctx) -> Result<Verdict, Verdict> {
        let start = tokfile(sc);
        let mut st: HashMap<u64, TokFile> = HashMap::new();
        let mut disk: HashMap<String, TokFile> = HashMap::new();
        let segs = sc["segs"].as_array().cloned().unwrap_or_default();
        for (k, seg) in segs.iter().enumerate() {
            let mut ops: Vec<Value> = vec![];
            let py = seg["python"] == true;
            if k == 0 {
                ops.push(start_op(py, 0, &start));
            } else {
                let mut slots: Vec<u64> = (0..SLOTS as u64).filter(|s| disk.contains_key(&format!("restart{s}.json"))).collect();
                slots.sort();
                for s in slots {
                    ops.push(json!({"op": "load", "slot": s, "path": format!("restart{s}.json")}));
                }
                st.clear();
            }
            let own: Vec<Value> = seg["ops"].as_array().cloned().unwrap_or_default();
            ops.extend(own);
            let (run, res) = c.client(py, &cfg_of(&seg["sim"]), &json!(ops))?;
            alive(&run, &res, ops.len())?;
            for (o, r) in ops.iter().zip(&res) {
                let slot = o["slot"].as_u64().unwrap_or(0);
                let op = o["op"].as_str().unwrap_or("");
                if r["err"] == "empty slot" {
                    continue;
                }
                match op {
                    "new" | "from_str" => {
                        okv(r, "a new tokenizer")?;
                        let given = match o["json"].as_str() {
                            Some(j) => parse_file(j.as_bytes()).map_err(|e| viol("scenario", e))?.0,
                            None => TokFile { vocab: toks_of(&o["vocab"]), special: strs(&o["special"]), procs: strs(&o["processors"]) },
                        };
                        let mut f = TokFile { special: vec![], ..given.clone() };
                        special_add(&mut f, &given.special);
                        st.insert(slot, f);
                    }
                    "load" => {
                        if let Some(f) = disk.get(o["path"].as_str().unwrap_or("")).cloned() {
                            okv(r, "loading what was saved")?;
                            st.insert(slot, f);
                        }
                    }
                    "clone" | "restring" | "copy" | "repickle" => {
                        okv(r, "a copy")?;
                        if let Some(f) = st.get(&o["from"].as_u64().unwrap_or(0)).cloned() {
                            st.insert(slot, f);
                        }
                    }
                    "save" => {
                        okv(r, "saving")?;
                        if let Some(f) = st.get(&slot).cloned() {
                            disk.insert(o["path"].as_str().unwrap_or("").into(), f);
                        }
                    }
                    "par" => {
                        let mut l: Vec<(u64, Value, Value)> = vec![];
                        let (th, rs) = (o["threads"].as_array().cloned().unwrap_or_default(), r["par"].as_array().cloned().unwrap_or_default());
                        ensure!(th.len() == rs.len(), "par", "{} clients, {} answered", th.len(), rs.len());
                        for (t, x) in th.iter().zip(&rs) {
                            let (t, x) = (t.as_array().cloned().unwrap_or_default(), x.as_array().cloned().unwrap_or_default());
                            ensure!(t.len() == x.len(), "par", "a client stopped after {} of {} operations", x.len(), t.len());
                            for (o, r) in t.into_iter().zip(x) {
                                if r["err"] != "empty slot" {
                                    l.push((r["at"].as_u64().unwrap_or(0), o, r));
                                }
                            }
                        }
                        // the order in which they held the lock
                        l.sort_by_key(|x| x.0);
                        for (_, o, r) in l {
                            let f = st.entry(o["slot"].as_u64().unwrap_or(0)).or_default();
                            judge(f, &o, &r, py)?;
                            apply(f, &o);
                        }
                        c.probe("concurrent history checked");
                    }
                    _ => {
                        let f = st.entry(slot).or_default();
                        judge(f, o, r, py)?;
                        apply(f, o);
                    }
                }
            }
        }
        c.probe(&format!("history over {} processes", segs.len()));
        Ok(Verdict::Pass)
    }
    fn rule(&self) -> &'static str {
        "a run counts as non-trivial if the simulator made a scheduling decision that differs from the default or injected a fault; distinct by the hash of its whole event sequence"
    }
    fn components(&self) -> (&'static str, &'static str) {
        ("the real library, as compiled from /repo, behind a reader-writer lock in the driver", "the kernel's thread, lock, clock, entropy, memory and file interface is simulated below libc; files live on a scratch tmpfs")
    }
}
