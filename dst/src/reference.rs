//! Sequential references for the training commands.
use crate::gen::*;
use crate::tgx::{viterbi, Tok, Trie};
use serde_json::Value;
use std::collections::{HashMap, HashSet};

pub fn opt(sc: &Value, names: &[&str]) -> Option<String> {
    let o = strs(&sc["!opts"]);
    o.windows(2).find(|w| names.contains(&w[0].as_str())).map(|w| w[1].clone())
}
pub fn opt_n(sc: &Value, names: &[&str], d: usize) -> usize {
    opt(sc, names).and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn opt_f(sc: &Value, names: &[&str], d: f64) -> f64 {
    opt(sc, names).and_then(|s| s.parse().ok()).unwrap_or(d)
}

// ---------------------------------------------------------------- generation
#[derive(Default)]
pub struct Counts {
    /// samples that contain the candidate
    pub docs: HashMap<String, u64>,
    /// how often it is listed as added or suggested
    pub listed: HashMap<String, u64>,
    pub samples: u64,
}
impl Counts {
    pub fn total(&self, t: &str) -> u64 {
        self.docs.get(t).copied().unwrap_or(0) + self.listed.get(t).copied().unwrap_or(0)
    }
    pub fn all(&self) -> HashMap<&str, u64> {
        let mut m: HashMap<&str, u64> = HashMap::new();
        for (k, v) in self.docs.iter().chain(self.listed.iter()) {
            *m.entry(k).or_default() += v;
        }
        m
    }
}
/// Occurrences of each candidate in one sample.
pub fn candidates<'a>(sample: &'a str, split: Option<&fancy_regex::Regex>, allow: Option<&regex::Regex>, max: usize) -> Result<HashMap<&'a str, u64>, &'static str> {
    let mut parts: Vec<&str> = vec![];
    match split {
        None => parts.push(sample),
        Some(re) => {
            for m in re.find_iter(sample) {
                parts.push(m.map_err(|_| "the split pattern gives up")?.as_str());
            }
        }
    }
    let mut out = HashMap::new();
    for p in parts {
        let at: Vec<usize> = p.char_indices().map(|(i, _)| i).chain([p.len()]).collect();
        for i in 0..at.len() - 1 {
            for j in i + 1..at.len() {
                if at[j] - at[i] > max {
                    break;
                }
                let c = &p[at[i]..at[j]];
                if allow.map_or(true, |a| a.is_match(c)) {
                    *out.entry(c).or_default() += 1;
                }
            }
        }
    }
    Ok(out)
}
pub fn regexes(sc: &Value) -> Result<(Option<fancy_regex::Regex>, Option<regex::Regex>), &'static str> {
    let split = match sc["split"].as_str() {
        Some(p) => Some(fancy_regex::Regex::new(p).map_err(|_| "bad split pattern")?),
        None => None,
    };
    let allow = match sc["allow"].as_str() {
        Some(p) => Some(regex::Regex::new(p).map_err(|_| "bad allow pattern")?),
        None => None,
    };
    Ok((split, allow))
}
pub fn gen_counts(sc: &Value, sources: &[Vec<String>], max: usize) -> Result<Counts, &'static str> {
    let (split, allow) = regexes(sc)?;
    let mut c = Counts::default();
    let lists: Vec<String> = strs(&sc["added"]).into_iter().chain(strs(&sc["suggested"])).collect();
    for l in &lists {
        *c.listed.entry(l.clone()).or_default() += 1;
    }
    for s in sources {
        for (x, n) in distinct(s.iter().map(|x| x.as_str())) {
            c.samples += n;
            let mut here: HashSet<&str> = candidates(x, split.as_ref(), allow.as_ref(), max)?.into_keys().collect();
            for l in &lists {
                if x.contains(l.as_str()) {
                    here.insert(l);
                }
            }
            for t in here {
                match c.docs.get_mut(t) {
                    Some(k) => *k += n,
                    None => {
                        c.docs.insert(t.to_string(), n);
                    }
                }
            }
        }
    }
    Ok(c)
}
/// Equal samples together, in the order of their first occurrence.
pub fn distinct<'a>(samples: impl Iterator<Item = &'a str>) -> Vec<(&'a str, u64)> {
    let mut at: HashMap<&str, usize> = HashMap::new();
    let mut v: Vec<(&str, u64)> = vec![];
    for s in samples {
        let i = *at.entry(s).or_insert(v.len());
        if i == v.len() {
            v.push((s, 0));
        }
        v[i].1 += 1;
    }
    v
}
/// Bytes that some text in UTF-8 contains.
pub fn utf8_byte(b: u8) -> bool {
    !matches!(b, 0xc0 | 0xc1 | 0xf5..=0xff)
}

// ---------------------------------------------------------------- pruning
pub fn digamma(mut x: f64) -> f64 {
    // the asymptotic series after shifting, in a different arrangement
    let mut r = 0.0;
    while x < 12.0 {
        r -= 1.0 / x;
        x += 1.0;
    }
    let f = 1.0 / (x * x);
    r + x.ln() - 0.5 / x - f * (1.0 / 12.0 - f * (1.0 / 120.0 - f * (1.0 / 252.0 - f * (1.0 / 240.0 - f / 132.0))))
}
fn lse(a: f64, b: f64) -> f64 {
    if a == f64::NEG_INFINITY {
        return b;
    }
    if b == f64::NEG_INFINITY {
        return a;
    }
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    hi + (lo - hi).exp().ln_1p()
}
/// Adds the expected number of uses of each token in s, over all segmentations.
pub fn expect(vocab: &[Tok], trie: &Trie, s: &[u8], acc: &mut [f64]) -> bool {
    let n = s.len();
    let mut edges: Vec<(usize, u32, usize)> = vec![];
    for p in 0..n {
        trie.prefixes(&s[p..], |id, l| edges.push((p, id, l)));
    }
    let mut f = vec![f64::NEG_INFINITY; n + 1];
    f[0] = 0.0;
    for &(p, id, l) in &edges {
        f[p + l] = lse(f[p + l], f[p] + vocab[id as usize].s);
    }
    let mut b = vec![f64::NEG_INFINITY; n + 1];
    b[n] = 0.0;
    for &(p, id, l) in edges.iter().rev() {
        b[p] = lse(b[p], b[p + l] + vocab[id as usize].s);
    }
    let z = f[n];
    if z == f64::NEG_INFINITY {
        return false;
    }
    for &(p, id, l) in &edges {
        acc[id as usize] += (f[p] + vocab[id as usize].s + b[p + l] - z).exp();
    }
    true
}
/// The k best segmentations of a short string, best first.
pub fn kbest(vocab: &[Tok], trie: &Trie, s: &[u8], k: usize) -> Vec<(f64, Vec<u32>)> {
    let n = s.len();
    let mut at: Vec<Vec<(f64, Vec<u32>)>> = vec![vec![]; n + 1];
    at[0].push((0.0, vec![]));
    for p in 0..n {
        at[p].sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        at[p].truncate(k);
        let here = at[p].clone();
        if here.is_empty() {
            continue;
        }
        trie.prefixes(&s[p..], |id, l| {
            for (sc, path) in &here {
                let mut q = path.clone();
                q.push(id);
                at[p + l].push((sc + vocab[id as usize].s, q));
            }
        });
    }
    let mut v = std::mem::take(&mut at[n]);
    v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    v.truncate(k);
    v
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * (1.0 + a.abs().max(b.abs()))
}
fn bag(ids: &[u32]) -> Vec<u32> {
    let mut v = ids.to_vec();
    v.sort();
    v
}
#[derive(Debug)]
pub enum Stop {
    /// the outcome hinges on rounding or on a tie
    Ambiguous(&'static str),
    /// the command has to fail
    Fails,
}
pub struct PruneOpts {
    pub size: usize,
    pub shrink: f64,
    pub subiters: usize,
}
/// Pruning without dropout, sequentially.
pub fn prune(vocab: &[Tok], samples: &[&str], o: &PruneOpts) -> Result<Vec<Tok>, Stop> {
    let mut v = vocab.to_vec();
    while v.len() > o.size {
        let before = v.len();
        for _ in 0..o.subiters {
            v = em(&v, samples)?;
        }
        v = cut(&v, samples, o)?;
        if v.len() == before {
            break;
        }
    }
    Ok(v)
}
fn em(v: &[Tok], samples: &[&str]) -> Result<Vec<Tok>, Stop> {
    let trie = Trie::new(v);
    let mut e = vec![0.0; v.len()];
    for (s, n) in distinct(samples.iter().copied()) {
        let mut one = vec![0.0; v.len()];
        if !expect(v, &trie, s.as_bytes(), &mut one) {
            return Err(Stop::Fails);
        }
        for (a, b) in e.iter_mut().zip(one) {
            *a += b * n as f64;
        }
    }
    let mut out = vec![];
    for (t, f) in v.iter().zip(&e) {
        if !t.keep && (f - 0.5).abs() < 1e-7 {
            return Err(Stop::Ambiguous("an expectation at the threshold"));
        }
        if t.keep || *f >= 0.5 {
            out.push(Tok { s: f.max(0.5), ..t.clone() });
        }
    }
    let sum: f64 = out.iter().map(|t| t.s).sum();
    let ls = digamma(sum);
    for t in &mut out {
        t.s = digamma(t.s) - ls;
    }
    Ok(out)
}
fn cut(v: &[Tok], samples: &[&str], o: &PruneOpts) -> Result<Vec<Tok>, Stop> {
    let target = ((v.len() as f64 * o.shrink) as usize).max(o.size);
    let trie = Trie::new(v);
    let mut alt: Vec<Vec<u32>> = vec![vec![]; v.len()];
    let mut own_best = vec![true; v.len()];
    for (id, t) in v.iter().enumerate() {
        if t.keep {
            continue;
        }
        let b = kbest(v, &trie, &t.v, 12);
        if b.len() < 2 {
            continue;
        }
        if near(b[0].0, b[1].0) {
            return Err(Stop::Ambiguous("a token and its replacement are equally good"));
        }
        if b[0].1.len() > 1 {
            own_best[id] = false;
            continue;
        }
        let ties: Vec<_> = b[1..].iter().filter(|x| near(x.0, b[1].0)).collect();
        if ties.iter().any(|x| bag(&x.1) != bag(&ties[0].1)) {
            return Err(Stop::Ambiguous("two replacements are equally good"));
        }
        alt[id] = b[1].1.clone();
    }
    let mut freq = vec![0u64; v.len()];
    for (s, n) in distinct(samples.iter().copied()) {
        let b = viterbi(v, &trie, s.as_bytes()).ok_or(Stop::Fails)?;
        if b.tie {
            return Err(Stop::Ambiguous("a sample has two best segmentations"));
        }
        for id in b.ids {
            freq[id as usize] += n;
        }
    }
    let sum = freq.iter().sum::<u64>() as f64;
    let mut out = vec![];
    let mut cand: Vec<(usize, f64)> = vec![];
    for (id, t) in v.iter().enumerate() {
        if t.keep {
            out.push(t.clone());
        } else if freq[id] == 0 && !own_best[id] {
        } else if alt[id].is_empty() {
            out.push(t.clone());
        } else if freq[id] != 0 {
            let f = freq[id] as f64;
            let lp = f.ln() - sum.ln();
            let ls = (sum + f * (v.len() - 1) as f64).ln();
            let alp: f64 = alt[id].iter().map(|&a| (freq[a as usize] as f64 + f).ln() - ls).sum();
            let loss = f / samples.len() as f64 * (lp - alp);
            if loss.abs() < 1e-12 {
                return Err(Stop::Ambiguous("a loss of zero"));
            }
            if !loss.is_normal() {
                return Err(Stop::Fails);
            }
            cand.push((id, loss));
        }
    }
    cand.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    let n = target.saturating_sub(out.len()).min(cand.len());
    if n > 0 && n < cand.len() && near(cand[n - 1].1, cand[n].1) {
        return Err(Stop::Ambiguous("equal losses at the cut"));
    }
    for (id, _) in &cand[..n] {
        out.push(v[*id].clone());
    }
    Ok(out)
}

// ---------------------------------------------------------------- merging
pub struct Pairs {
    pub count: HashMap<(u32, u32), u64>,
    pub tie: bool,
    pub fails: bool,
}
pub fn pairs(v: &[Tok], samples: &[&str]) -> Pairs {
    let trie = Trie::new(v);
    let mut p = Pairs { count: HashMap::new(), tie: false, fails: false };
    for (s, n) in distinct(samples.iter().copied()) {
        match viterbi(v, &trie, s.as_bytes()) {
            None => p.fails = true,
            Some(b) => {
                p.tie |= b.tie;
                for w in b.ids.windows(2) {
                    *p.count.entry((w[0], w[1])).or_default() += n;
                }
            }
        }
    }
    p
}
