//! An independent, sequential model of the tokenizer and its file format.
use crate::json::{self, J};
use base64::{engine::general_purpose::STANDARD_NO_PAD as B64, Engine};
use std::collections::HashMap;
use unicode_normalization::UnicodeNormalization;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub v: Vec<u8>,
    pub s: f64,
    pub keep: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct TokFile {
    pub special: Vec<String>,
    pub procs: Vec<String>,
    pub vocab: Vec<Tok>,
}
/// Which score text stood in the file, for comparing float parsers.
pub fn parse_file(b: &[u8]) -> Result<(TokFile, Vec<String>), String> {
    let j = json::parse(b)?;
    let J::Obj(o) = j else { return Err("not an object".into()) };
    let mut f = TokFile::default();
    let mut texts = vec![];
    let mut seen = [false; 4];
    for (k, v) in o {
        match (k.as_str(), v) {
            ("version", J::Str(s)) => {
                if s != "2.0" {
                    return Err(format!("version {s:?}"));
                }
                seen[0] = true;
            }
            ("special_tokens", J::Arr(a)) => {
                for x in a {
                    match x {
                        J::Str(s) => f.special.push(s),
                        _ => return Err("special token is not a string".into()),
                    }
                }
                seen[1] = true;
            }
            ("processors", J::Arr(a)) => {
                for x in a {
                    let J::Obj(p) = x else { return Err("processor is not an object".into()) };
                    let g = |n: &str| {
                        p.iter().find(|(k, _)| k == n).and_then(|(_, v)| if let J::Str(s) = v { Some(s.clone()) } else { None })
                    };
                    match (g("type").as_deref(), g("form")) {
                        (Some("crlf"), _) => f.procs.push("crlf".into()),
                        (Some("unicode"), Some(form)) if ["nfc", "nfd", "nfkc", "nfkd"].contains(&form.as_str()) => f.procs.push(form),
                        _ => return Err("bad processor".into()),
                    }
                }
                seen[2] = true;
            }
            ("vocab", J::Arr(a)) => {
                for x in a {
                    let J::Obj(p) = x else { return Err("token is not an object".into()) };
                    let (mut v, mut s, mut enc, mut keep) = (None, None, false, false);
                    for (k, x) in p {
                        match (k.as_str(), x) {
                            ("value", J::Str(t)) => v = Some(t),
                            ("score", J::Num(t)) => s = Some(t),
                            ("encoded", J::Bool(b)) => enc = b,
                            ("keep", J::Bool(b)) => keep = b,
                            (k, _) => return Err(format!("bad token field {k:?}")),
                        }
                    }
                    let v = v.ok_or("token without value")?;
                    let v = if enc { B64.decode(v).map_err(|e| e.to_string())? } else { v.into_bytes() };
                    let t = s.ok_or("token without score")?;
                    let s: f64 = t.parse().map_err(|_| "bad score".to_string())?;
                    f.vocab.push(Tok { v, s, keep });
                    texts.push(t);
                }
                seen[3] = true;
            }
            (k, _) => return Err(format!("bad field {k:?}")),
        }
    }
    if seen != [true; 4] {
        return Err("missing field".into());
    }
    Ok((f, texts))
}
fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
impl TokFile {
    /// An input file for the commands.
    pub fn to_json(&self) -> String {
        let mut o = String::from("{\n  \"version\": \"2.0\",\n  \"special_tokens\": [");
        o += &self.special.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
        o += "],\n  \"processors\": [";
        o += &self
            .procs
            .iter()
            .map(|p| if p == "crlf" { "{\"type\": \"crlf\"}".to_string() } else { format!("{{\"type\": \"unicode\", \"form\": \"{p}\"}}") })
            .collect::<Vec<_>>()
            .join(", ");
        o += "],\n  \"vocab\": [\n";
        let mut rows = vec![];
        for t in &self.vocab {
            let (v, e) = match std::str::from_utf8(&t.v) {
                Ok(s) => (jstr(s), false),
                Err(_) => (jstr(&B64.encode(&t.v)), true),
            };
            rows.push(format!(
                "    {{\"value\": {v}, \"score\": {:?}{}{}}}",
                t.s,
                if e { ", \"encoded\": true" } else { "" },
                if t.keep { ", \"keep\": true" } else { "" }
            ));
        }
        o += &rows.join(",\n");
        o += "\n  ]\n}";
        o
    }
}
pub fn preprocess(procs: &[String], s: &str) -> String {
    let mut s = s.to_string();
    for p in procs {
        s = match p.as_str() {
            "crlf" => s.replace("\r\n", "\n"),
            "nfc" => s.nfc().collect(),
            "nfd" => s.nfd().collect(),
            "nfkc" => s.nfkc().collect(),
            _ => s.nfkd().collect(),
        };
    }
    s
}
#[derive(Clone, Copy)]
struct H(u64);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = crate::util::mix(self.0 ^ x);
    }
}
#[derive(Clone, Copy, Default)]
struct BH;
impl std::hash::BuildHasher for BH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(7)
    }
}
/// Byte trie over the vocabulary; a later token with the same bytes wins.
pub struct Trie {
    next: HashMap<u64, u32, BH>,
    id: Vec<Option<u32>>,
}
impl Trie {
    pub fn new(vocab: &[Tok]) -> Trie {
        let mut t = Trie { next: HashMap::with_hasher(BH), id: vec![None] };
        for (i, k) in vocab.iter().enumerate() {
            t.push(&k.v, i as u32);
        }
        t
    }
    pub fn push(&mut self, v: &[u8], id: u32) {
        let mut n = 0u32;
        for &b in v {
            let key = (n as u64) << 8 | b as u64;
            n = match self.next.get(&key) {
                Some(x) => *x,
                None => {
                    let x = self.id.len() as u32;
                    self.id.push(None);
                    self.next.insert(key, x);
                    x
                }
            };
        }
        if !v.is_empty() {
            self.id[n as usize] = Some(id);
        }
    }
    pub fn prefixes(&self, s: &[u8], mut f: impl FnMut(u32, usize)) {
        let mut n = 0u32;
        for (i, &b) in s.iter().enumerate() {
            match self.next.get(&((n as u64) << 8 | b as u64)) {
                None => return,
                Some(x) => {
                    n = *x;
                    if let Some(id) = self.id[n as usize] {
                        f(id, i + 1);
                    }
                }
            }
        }
    }
    pub fn get(&self, s: &[u8]) -> Option<u32> {
        let mut r = None;
        self.prefixes(s, |id, l| {
            if l == s.len() {
                r = Some(id)
            }
        });
        r
    }
}
pub struct Best {
    pub ids: Vec<u32>,
    pub score: f64,
    /// another segmentation is as good, up to rounding
    pub tie: bool,
}
pub fn viterbi(vocab: &[Tok], trie: &Trie, s: &[u8]) -> Option<Best> {
    let n = s.len();
    let mut best: Vec<(f64, usize, u32)> = vec![(0.0, usize::MAX, 0); n + 1];
    let mut tie = vec![false; n + 1];
    best[0].1 = 0;
    for p in 0..n {
        if best[p].1 == usize::MAX {
            continue;
        }
        let base = best[p].0;
        trie.prefixes(&s[p..], |id, l| {
            let c = base + vocab[id as usize].s;
            let e = &mut best[p + l];
            if e.1 == usize::MAX {
                *e = (c, p, id);
            } else {
                let near = (c - e.0).abs() <= 1e-9 * (1.0 + c.abs());
                if near {
                    tie[p + l] = true;
                }
                if c > e.0 {
                    if !near {
                        tie[p + l] = false;
                    }
                    *e = (c, p, id);
                }
            }
        });
    }
    if best[n].1 == usize::MAX {
        return None;
    }
    let mut ids = vec![];
    let mut p = n;
    let mut t = false;
    while p > 0 {
        t |= tie[p];
        ids.push(best[p].2);
        p = best[p].1;
    }
    ids.reverse();
    Some(Best { ids, score: best[n].0, tie: t })
}
pub struct Ref<'a> {
    pub f: &'a TokFile,
    pub trie: Trie,
}
#[derive(Debug, PartialEq)]
pub enum Piece {
    Text(String),
    Special(usize),
}
impl<'a> Ref<'a> {
    pub fn new(f: &'a TokFile) -> Ref<'a> {
        Ref { trie: Trie::new(&f.vocab), f }
    }
    pub fn split(&self, text: &str) -> Vec<Piece> {
        let mut out = vec![];
        let mut rest = text;
        while !rest.is_empty() {
            let mut hit: Option<(usize, usize)> = None;
            for (k, sp) in self.f.special.iter().enumerate() {
                if sp.is_empty() {
                    continue;
                }
                if let Some(at) = rest.find(sp.as_str()) {
                    if hit.map_or(true, |(a, _)| at < a) {
                        hit = Some((at, k));
                    }
                }
            }
            match hit {
                None => {
                    out.push(Piece::Text(rest.to_string()));
                    break;
                }
                Some((at, k)) => {
                    if at > 0 {
                        out.push(Piece::Text(rest[..at].to_string()));
                    }
                    out.push(Piece::Special(k));
                    rest = &rest[at + self.f.special[k].len()..];
                }
            }
        }
        out
    }
    /// Does `ids` encode `text` as well as anything can? None: it does.
    pub fn check_encode(&self, text: &str, ordinary: bool, got: Option<&[u32]>, optimal: bool) -> Option<String> {
        let pieces = if ordinary { vec![Piece::Text(text.to_string())] } else { self.split(text) };
        let nv = self.f.vocab.len() as u32;
        let mut k = 0usize;
        for p in &pieces {
            match p {
                Piece::Special(i) => {
                    let Some(ids) = got else { continue };
                    if ids.get(k) != Some(&(nv + *i as u32)) {
                        return Some(format!("special token {:?} expected as id {} at position {k}, got {:?}", self.f.special[*i], nv + *i as u32, ids.get(k)));
                    }
                    k += 1;
                }
                Piece::Text(t) => {
                    let t = preprocess(&self.f.procs, t);
                    let want = viterbi(&self.f.vocab, &self.trie, t.as_bytes());
                    match (want, got) {
                        (None, None) => return None,
                        (None, Some(_)) => return Some(format!("text {:?} has no segmentation but was encoded", crate::util::clip(&t, 80))),
                        (Some(_), None) => continue,
                        (Some(w), Some(ids)) => {
                            let mut at = 0;
                            let mut sc = 0.0;
                            while at < t.len() {
                                let Some(&id) = ids.get(k) else {
                                    return Some(format!("ids end after {at} of {} bytes of {:?}", t.len(), crate::util::clip(&t, 80)));
                                };
                                if id >= nv {
                                    return Some(format!("id {id} inside ordinary text (vocabulary size {nv})"));
                                }
                                let tk = &self.f.vocab[id as usize];
                                if !t.as_bytes()[at..].starts_with(&tk.v) || tk.v.is_empty() {
                                    return Some(format!("token {:?} does not match the text at byte {at}", String::from_utf8_lossy(&tk.v)));
                                }
                                at += tk.v.len();
                                sc += tk.s;
                                k += 1;
                            }
                            if optimal && sc < w.score - 1e-7 * (1.0 + w.score.abs()) {
                                return Some(format!("score {sc} is below the best {} for {:?}", w.score, crate::util::clip(&t, 80)));
                            }
                        }
                    }
                }
            }
        }
        match got {
            None => Some("encoding failed although every piece has a segmentation".into()),
            Some(ids) if k != ids.len() => Some(format!("{} ids more than the text needs", ids.len() - k)),
            _ => None,
        }
    }
    /// Ok(text), or Err(id) for the ids that make decoding fail.
    pub fn decode(&self, ids: &[u32], include: bool) -> Result<String, Vec<u32>> {
        let nv = self.f.vocab.len() as u32;
        let bad: Vec<u32> = ids.iter().copied().filter(|&i| i >= nv + self.f.special.len() as u32).collect();
        if !bad.is_empty() {
            return Err(bad);
        }
        let mut out = String::new();
        let mut buf: Vec<u8> = vec![];
        for &i in ids {
            if i >= nv {
                out += &String::from_utf8_lossy(&buf);
                buf.clear();
                if include {
                    out += &self.f.special[(i - nv) as usize];
                }
            } else {
                buf.extend_from_slice(&self.f.vocab[i as usize].v);
            }
        }
        out += &String::from_utf8_lossy(&buf);
        Ok(out)
    }
}
