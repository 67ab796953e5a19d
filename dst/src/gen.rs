//! Seeded generators shared by the properties: schedules, faults, texts,
//! vocabularies, training sets; and how a scenario becomes files and arguments.
use crate::frame::Ctx;
use crate::sim::Cfg;
use crate::tgx::{Tok, TokFile};
use crate::util::*;
use serde_json::{json, Value};

pub fn cfg_of(v: &Value) -> Cfg {
    v.as_object().cloned().unwrap_or_default()
}
pub fn with(c: &Cfg, kv: &[(&str, u64)]) -> Cfg {
    let mut c = c.clone();
    for (k, v) in kv {
        c.insert(k.to_string(), json!(v));
    }
    c
}
/// A random schedule: who runs, when, on how many workers and cpus.
pub fn sched(r: &mut Rng) -> Cfg {
    let mut c = Cfg::new();
    c.insert("seed".into(), json!(r.next() >> 12));
    let mode = match r.below(10) {
        0 => 0,
        1 | 2 => 2,
        _ => 1,
    };
    c.insert("mode".into(), json!(mode));
    c.insert("mean".into(), json!(*r.pick(&[1u64, 3, 10, 30, 100, 300, 1000])));
    c.insert("threads".into(), json!(*r.pick(&[1u64, 2, 2, 3, 4, 4, 5, 8])));
    c.insert("ncpu".into(), json!(r.range(1, 8)));
    c.insert("tick".into(), json!(*r.pick(&[100u64, 1000, 10_000, 100_000])));
    if mode == 2 {
        c.insert("pctk".into(), json!(*r.pick(&[500u64, 3000, 20_000])));
        c.insert("pctd".into(), json!(r.range(1, 6)));
    }
    if r.chance(30) {
        c.insert("spur".into(), json!(*r.pick(&[1000u64, 50_000])));
    }
    if r.chance(30) {
        c.insert("stall".into(), json!(*r.pick(&[10_000u64, 200_000])));
    }
    if r.chance(20) {
        c.insert("fintr".into(), json!(50_000));
    }
    if r.chance(10) {
        wall_clock(r, &mut c);
    }
    c
}
/// Somebody sets the wall clock, forward or back, by up to sixteen years.
pub fn wall_clock(r: &mut Rng, c: &mut Cfg) {
    let most = 16usize << r.below(14);
    c.insert("wstep".into(), json!(r.range(1, most)));
    c.insert("wns".into(), json!(500_000_000u64 << r.below(31)));
    c.insert("wback".into(), json!(r.below(2)));
}
/// One thread, no faults.
pub fn seq(seed: u64) -> Cfg {
    let mut c = Cfg::new();
    for (k, v) in [("seed", seed >> 12), ("mode", 0), ("threads", 1), ("ncpu", 1), ("tick", 1000)] {
        c.insert(k.into(), json!(v));
    }
    c
}
/// I/O behaviour every program has to live with.
pub fn benign(r: &mut Rng, c: &mut Cfg) {
    if r.chance(40) {
        c.insert("eintr".into(), json!(*r.pick(&[20_000u64, 200_000])));
    }
    if r.chance(50) {
        c.insert("sread".into(), json!(*r.pick(&[100_000u64, 700_000])));
    }
    if r.chance(50) {
        c.insert("swrite".into(), json!(*r.pick(&[100_000u64, 700_000])));
    }
}

const WORDS: &[&str] = &[
    "the", "and", "for", "int", "let", "mut", "fn", "self", "return", "std::string", "std::vector", "if (", ") {", "};", "->", "==", "!=", "0x1f", "42", "3.14",
    "a", "b", "c", "ab", "abc", "abcd", "aa", "aaa", "aaaa", "ba", "bab", "abab", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "_", ".", ",", "::", "<T>",
    "é", "e\u{301}", "ü", "ß", "ﬁ", "Ω", "你好", "世界", "日本", "你", "🦀", "👩\u{200d}🚀", "\u{1e9b}\u{323}", "ａｂ", "²", "\u{feff}", "\u{0}x", "\u{7f}", "İ", "ñ", "한국",
    "foo", "bar", "baz", "foobar", "foo_bar", "FooBar", "hello", "world", "lorem", "ipsum", "x1", "y2", "z", "q", "//", "/*", "*/", "#", "\"", "'", "\\", "\u{e000}",
];
pub fn pool(r: &mut Rng) -> Vec<String> {
    let n = r.range(3, 14);
    let ascii = r.chance(40);
    let mut v = vec![];
    while v.len() < n {
        let w = *r.pick(WORDS);
        if (ascii && !w.is_ascii()) || w.contains('\0') {
            continue;
        }
        v.push(w.to_string());
        if r.chance(20) {
            let k = r.range(1, 6);
            v.push((0..k).map(|_| (b'a' + r.below(26) as u8) as char).collect());
        }
    }
    v
}
pub fn text(r: &mut Rng, pool: &[String], max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    let glue = *r.pick(&["", "", " ", "\n"]);
    for i in 0..n {
        if i > 0 {
            s += glue;
        }
        s += r.pick(pool);
    }
    s
}
/// A score that every float parser reads back exactly.
pub fn score(r: &mut Rng) -> f64 {
    -(r.range(64, 60_000) as f64) / 4096.0
}
pub fn bytes_vocab(r: &mut Rng, keep: bool) -> Vec<Tok> {
    let flat = r.chance(30);
    let s0 = score(r) - 4.0;
    (0..=255u8).map(|b| Tok { v: vec![b], s: if flat { s0 } else { score(r) - 4.0 }, keep }).collect()
}
/// Up to n multi-byte tokens cut from the pool's words and their concatenations.
pub fn tokens(r: &mut Rng, pool: &[String], n: usize, whole_chars: bool) -> Vec<Vec<u8>> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for _ in 0..n * 4 {
        if out.len() >= n {
            break;
        }
        let mut w = r.pick(pool).clone();
        for _ in 0..r.below(3) {
            w += r.pick(pool);
        }
        let v: Vec<u8> = if whole_chars || r.chance(70) {
            let ch: Vec<char> = w.chars().collect();
            let a = r.below(ch.len());
            let b = (a + r.range(1, 8)).min(ch.len());
            ch[a..b].iter().collect::<String>().into_bytes()
        } else {
            let b = w.as_bytes();
            let a = r.below(b.len());
            let z = (a + r.range(2, 6)).min(b.len());
            b[a..z].to_vec()
        };
        if v.len() > 1 && seen.insert(v.clone()) {
            out.push(v);
        }
    }
    out
}
/// All bytes, then the given number of longer tokens; unique.
pub fn vocab(r: &mut Rng, pool: &[String], n: usize, whole_chars: bool) -> Vec<Tok> {
    let mut v = bytes_vocab(r, true);
    for t in tokens(r, pool, n, whole_chars) {
        let s = score(r);
        let keep = r.chance(8);
        v.push(Tok { v: t, s, keep });
    }
    if r.chance(30) {
        r.shuffle(&mut v);
    }
    v
}
const FORMS: &[&str] = &["crlf", "nfc", "nfd", "nfkc", "nfkd"];
pub fn procs(r: &mut Rng) -> Vec<String> {
    match r.below(10) {
        0..=4 => vec![],
        5 => vec!["crlf".into()],
        6 => vec!["nfc".into()],
        7 => vec!["crlf".into(), FORMS[r.range(1, 4)].into()],
        8 => vec![FORMS[r.range(1, 4)].into()],
        _ => (0..r.range(2, 3)).map(|_| FORMS[r.below(5)].to_string()).collect(),
    }
}
const SPECIALS: &[&str] = &[
    "<|eos|>", "<|bos|>", "<|pad|>", "<|mid|>", "<s>", "</s>", "[PAD]", "<|", "|>", "##", "\u{2581}", "<|eos", "你", "🦀", "::", "<pad>\n", "\"", "\\n", "é",
];
/// Special tokens, none a prefix of another (which of two would win is unspecified).
pub fn specials(r: &mut Rng, max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..r.below(max + 1) {
        let s = if r.chance(80) { r.pick(SPECIALS).to_string() } else { format!("<{}>", r.below(1000)) };
        if v.iter().all(|x| !x.starts_with(&s) && !s.starts_with(x.as_str())) {
            v.push(s);
        }
    }
    v
}
pub fn mixed_text(r: &mut Rng, pool: &[String], special: &[String], max: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        s += &text(r, pool, max);
        if !special.is_empty() && r.chance(50) {
            s += r.pick(special);
        }
        if !special.is_empty() && r.chance(15) {
            // part of a special token
            let sp = r.pick(special);
            let ch: Vec<char> = sp.chars().collect();
            s.extend(&ch[..r.below(ch.len())]);
        }
    }
    s
}

// ---------------------------------------------------------------- JSON forms
pub fn bits(s: f64) -> String {
    format!("{:016x}", s.to_bits())
}
pub fn tok_json(t: &Tok) -> Value {
    json!([hex(&t.v), bits(t.s), t.keep])
}
pub fn toks_json(v: &[Tok]) -> Value {
    json!(v.iter().map(tok_json).collect::<Vec<_>>())
}
pub fn toks_of(v: &Value) -> Vec<Tok> {
    v.as_array()
        .map(|a| {
            a.iter()
                .filter_map(|t| {
                    Some(Tok {
                        v: unhex(t[0].as_str()?)?,
                        s: f64::from_bits(u64::from_str_radix(t[1].as_str()?, 16).ok()?),
                        keep: t[2].as_bool()?,
                    })
                })
                .collect()
        })
        .unwrap_or_default()
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}
pub fn ids_of(v: &Value) -> Option<Vec<u32>> {
    v.as_array()?.iter().map(|x| x.as_u64().map(|n| n as u32)).collect()
}
/// The tokenizer of a scenario: keys vocab, procs, special, and how many tokens to fill the vocabulary up with.
pub fn tokfile(sc: &Value) -> TokFile {
    let mut f = TokFile { special: strs(&sc["special"]), procs: strs(&sc["procs"]), vocab: toks_of(&sc["vocab"]) };
    for i in 0..sc["fill"].as_u64().unwrap_or(0).min(200_000) {
        f.vocab.push(Tok { v: fill_token(i).into_bytes(), s: -1.0 - (i * 2_654_435_761 % 60_000) as f64 / 4096.0, keep: i % 13 == 0 });
    }
    f
}
pub fn fill_token(i: u64) -> String {
    format!("\u{1}{i:x};")
}
/// How many tokens to fill up with: past 12, 15 and 16 bits, and a text of some of them.
pub fn fill(r: &mut Rng) -> (u64, String) {
    let n = *r.pick(&[5_000u64, 20_000, 33_000, 50_100, 66_000, 66_000, 70_000]) + r.below(100) as u64;
    let t = (0..r.range(4, 12)).map(|_| fill_token(if r.chance(50) { n - 1 - r.below(600) as u64 } else { r.below(n as usize) as u64 })).collect();
    (n, t)
}
pub fn new_op(slot: u64, f: &TokFile) -> Value {
    json!({"op": "new", "slot": slot, "vocab": toks_json(&f.vocab), "processors": f.procs, "special": f.special})
}

// ---------------------------------------------------------------- training data
/// The samples of a source: the listed ones, each joined to itself, all of that repeated.
pub fn samples_of(s: &Value) -> Vec<String> {
    if let Some(seed) = s["wild"].as_u64() {
        return wild_samples(s, seed);
    }
    let mut v = strs(&s["samples"]);
    if let Some(n) = s["lead"].as_u64() {
        // that many samples of 64 KiB first
        let one = if s["rich"] == true { "s1你x".repeat(10_922) + "--" } else { "-".repeat(65_535) };
        v.splice(0..0, (0..n.min(2000)).map(|_| one.clone()));
    }
    let join = s["join"].as_u64().unwrap_or(1) as usize;
    let copies = s["copies"].as_u64().unwrap_or(1) as usize;
    if join == 1 && copies == 1 {
        return v;
    }
    let glue = s["glue"].as_str().unwrap_or("");
    let one: Vec<String> = v.iter().map(|x| vec![x.as_str(); join].join(glue)).collect();
    (0..copies).flat_map(|_| one.iter().cloned()).collect()
}
/// Text of many different pairs, substrings or words, with a few that each sample has.
fn wild_samples(s: &Value, seed: u64) -> Vec<String> {
    let mut r = Rng::new(seed);
    let u = |k: &str, most: u64| s[k].as_u64().unwrap_or(0).min(most) as usize;
    let (n, len, sym, rep) = (u("n", 2000), u("len", 600_000), u("sym", 1000), u("rep", 9).max(1));
    let common = strs(&s["common"]);
    let letter = |r: &mut Rng| char::from_u32(match r.below(sym) as u32 {
        k if k < 94 => 33 + k,
        k => 0x100 + k,
    });
    (0..n)
        .map(|_| {
            let mut v: Vec<String> = if sym > 0 {
                (0..len).filter_map(|_| letter(&mut r)).map(String::from).collect()
            } else {
                (0..len).map(|_| (0..r.range(3, 5)).map(|_| (b'a' + r.below(26) as u8) as char).collect()).collect()
            };
            if rep > 1 {
                v = v.iter().flat_map(|w| vec![w.clone(); rep]).collect();
                r.shuffle(&mut v);
            }
            for w in &common {
                let at = r.below(v.len() + 1);
                v.insert(at, w.clone());
            }
            if let Some(t) = s["tail"].as_str() {
                v.push(t.repeat(u("times", 2000)));
            }
            v.join(if sym > 0 { "" } else { " " })
        })
        .collect()
}
/// Up to `most` characters of such text.
pub fn wild(r: &mut Rng, chars: bool, most: usize) -> Value {
    let n = *r.pick(&[1usize, 2, 5, 8, 12, 40]);
    let len = most / n / if chars { 1 } else { 5 };
    let len = r.range(len / 3 + 1, len + 1);
    let common: Vec<String> = (0..r.range(1, 3)).map(|i| if chars { ["{|", "}~", "zz"][i].into() } else { format!("{}{}{i}", "w", r.below(10)) }).collect();
    let sym = if chars { *r.pick(&[20usize, 60, 85, 90, 90, 94, 200]) } else { 0 };
    json!([{"wild": r.next() >> 16, "n": n, "len": len, "sym": sym, "rep": if chars { 1 } else { r.range(1, 2) }, "common": common}])
}
/// A sample of more than 64, 128 or 256 KiB with something frequent at its end.
pub fn vast(r: &mut Rng, sym: usize) -> Value {
    let len = *r.pick(&[66_000usize, 66_000, 132_000, 270_000]) + r.below(400);
    let mut v = vec![json!({"wild": r.next() >> 16, "n": 1, "len": len, "sym": sym, "rep": 1, "common": [], "tail": *r.pick(&["{|", "}~|", "zz"]), "times": 400})];
    if r.chance(50) {
        v.push(json!({"samples": ["ab zz", "{|"]}));
    }
    json!(v)
}
/// Counts that need more than 8, 12 or 16 bits, from few words.
pub fn bulk(r: &mut Rng, pool: &[String], docs: bool, longest: usize) -> Value {
    let n = *r.pick(&[255usize, 256, 260, 300, 1000, 4100, 33_000, 66_000, 70_000]);
    let words: Vec<String> = (0..r.range(1, 2)).map(|_| r.pick(pool).clone()).collect();
    let len = words.iter().map(|w| w.len() + 1).max().unwrap_or(1);
    let join = if docs || r.chance(30) {
        1
    } else {
        let j = *r.pick(&[n, n, n / 3 + 1, n / 40 + 1]);
        j.min(longest / len).max(1)
    };
    let mut v = vec![json!({"samples": words, "copies": n / join + r.below(3), "join": join, "glue": *r.pick(&["", " ", "\n"])})];
    if r.chance(60) {
        // close behind
        let w: Vec<String> = (0..r.range(1, 2)).map(|_| r.pick(pool).clone() + r.pick(pool)).collect();
        let j = if join > 1 { (join / 2).max(1) } else { 1 };
        v.push(json!({"samples": w, "copies": (n / j).saturating_sub(r.below(n / 8 + 2)).max(1), "join": j, "glue": " "}));
    }
    json!(v)
}
/// The file of a source: its own, or that of the first one with the same samples.
pub fn source_file(sources: &Value, i: usize) -> String {
    let s = &sources[i];
    let k = if s["same"] == true { (0..i).find(|&k| samples_of(&sources[k]) == samples_of(s)).unwrap_or(i) } else { i };
    format!("train{k}.bin")
}
/// `sources`: [{samples: [...], prop: "0.5" or absent}]; returns the arguments.
pub fn put_sources(c: &Ctx, sources: &Value) -> Vec<String> {
    let mut a = vec![];
    for (i, s) in sources.as_array().map(|v| v.as_slice()).unwrap_or(&[]).iter().enumerate() {
        let f = source_file(sources, i);
        if s["copies"].as_u64().unwrap_or(1) * s["join"].as_u64().unwrap_or(1) > 500 {
            c.big.set(true);
        }
        c.put(&f, samples_of(s).join("\0").as_bytes());
        a.push("--train".to_string());
        let name = s["name"].as_str().map_or(format!("n{i}"), |n| n.to_string());
        a.push(match s["prop"].as_str() {
            Some(p) => format!("{name}:{f}:{p}"),
            None => format!("{name}:{f}"),
        });
    }
    a
}
/// What a command should train on: one list per source.
pub fn loaded(sources: &Value, procs: &[String]) -> Vec<Vec<String>> {
    sources
        .as_array()
        .map(|v| v.as_slice())
        .unwrap_or(&[])
        .iter()
        .map(|s| {
            let all: Vec<String> = samples_of(s).iter().flat_map(|x| x.split('\0').map(|y| y.to_string()).collect::<Vec<_>>()).filter(|x| !x.is_empty()).collect();
            let p: f64 = s["prop"].as_str().and_then(|p| p.parse().ok()).unwrap_or(1.0);
            let n = ((all.len() as f64 * p).floor() as usize).min(all.len());
            all[..n].iter().map(|x| crate::tgx::preprocess(procs, x)).filter(|x| !x.is_empty()).collect()
        })
        .collect()
}
pub fn sources(r: &mut Rng, pool: &[String], max_sources: usize, max_samples: usize, max_words: usize) -> Value {
    let n = r.range(1, max_sources.max(1));
    let mut v = vec![];
    for _ in 0..n {
        let k = r.range(1, max_samples.max(1));
        let samples: Vec<String> = (0..k)
            .map(|_| {
                let mut t = text(r, pool, max_words);
                if t.is_empty() && r.chance(80) {
                    t = r.pick(pool).clone();
                }
                t
            })
            .collect();
        let mut s = json!({ "samples": samples });
        if r.chance(12) {
            s["prop"] = json!(*r.pick(&["0.5", "0.25", "0.75", "1", "1.0"]));
        }
        v.push(s);
    }
    json!(v)
}
pub fn args(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
/// A process that ended in a way no fault explains.
pub fn bad_end(r: &crate::sim::Run) -> Option<String> {
    r.hung().or_else(|| r.signal.map(|s| format!("killed by signal {s}: {}", r.panic_line())))
}
/// KL test: has an event of probability p happened x times in n an improbable frequency?
pub fn improbable(x: u64, n: u64, p: f64, nats: f64) -> bool {
    if n == 0 {
        return false;
    }
    if p <= 0.0 {
        return x > 0;
    }
    if p >= 1.0 {
        return x < n;
    }
    let q = x as f64 / n as f64;
    let mut kl = 0.0;
    if q > 0.0 {
        kl += q * (q / p).ln();
    }
    if q < 1.0 {
        kl += (1.0 - q) * ((1.0 - q) / (1.0 - p)).ln();
    }
    n as f64 * kl > nats
}

// ---------------------------------------------------------------- commands
pub const ALLOW: &[&str] = &["^.*$", "(?s)^.*$", "^[a-z ]+$", "[a-z]", "^ ?[a-zA-Z]+$", "^\\w+$", "(?s)^.{1,4}$", "^[^0-9]*$", "^a"];
pub const SPLIT: &[&str] = &["\\w+|\\s+|[^\\w\\s]+", "[a-z]+(?=b)|[a-z]+|[^a-z]+", ".", "(?s).{1,5}", "\\S+", "x*"];
pub const PATTERNS: &[&str] = &["[a-z]+", "std::\\w+", "\\w+", "[0-9]+", "\\s", "ab", "foo|bar", "(?:é|你)+", "[a-z]{2}", "x*", "\\p{L}+", "a", "b+c?"];
/// A training command with random options and small inputs.
pub fn command(r: &mut Rng, cmd: &str, pool: &[String], samples: usize) -> Value {
    let mut o: Vec<String> = vec![];
    let mut sc = json!({ "cmd": cmd });
    let m = sc.as_object_mut().unwrap();
    let mut pro = vec![];
    if cmd != "mine" && cmd != "regex" {
        pro = procs(r);
        m.insert("procs".into(), json!(pro));
        m.insert("special".into(), json!(specials(r, 3)));
    }
    if matches!(cmd, "prune" | "filter" | "merge") {
        let n = r.range(5, 50);
        m.insert("vocab".into(), toks_json(&vocab(r, pool, n, false)));
    }
    if !matches!(cmd, "filter" | "regex") {
        m.insert("sources".into(), sources(r, pool, 3, samples, 10));
    }
    match cmd {
        "generate" => {
            o.extend(args(&["-v", &r.range(100, 330).to_string()]));
            o.extend(args(&["--insert-probability", r.pick(&["1", "1.0", "0.5", "0.1", "0.9"])]));
            o.extend(args(&["--max-token-length", r.pick(&["4", "8", "24", "1", "3"])]));
            if r.chance(50) {
                m.insert("allow".into(), json!(*r.pick(ALLOW)));
            }
            if r.chance(40) {
                m.insert("split".into(), json!(*r.pick(SPLIT)));
            }
            if r.chance(40) {
                m.insert("added".into(), json!((0..r.range(1, 4)).map(|_| r.pick(pool).clone()).collect::<Vec<_>>()));
            }
            if r.chance(40) {
                m.insert("suggested".into(), json!((0..r.range(1, 4)).map(|_| r.pick(pool).clone()).collect::<Vec<_>>()));
            }
        }
        "prune" => {
            o.extend(args(&["-v", &r.range(200, 300).to_string()]));
            o.extend(args(&["--dropout", r.pick(&["0", "0.0", "0.01", "0.3"])]));
            o.extend(args(&["--shrink-factor", r.pick(&["0.5", "0.8", "0.95"])]));
            o.extend(args(&["--em-subiters", r.pick(&["1", "2"])]));
        }
        "filter" => {
            o.extend(args(&["-v", &r.range(0, 300).to_string()]));
            if r.chance(80) {
                o.extend(args(&["--min-score", &format!("{}", -(r.range(1, 20) as f64))]));
            }
        }
        "merge" => {
            m.insert("allow".into(), json!(*r.pick(ALLOW)));
            o.extend(args(&["--num-merges", &r.range(0, 12).to_string()]));
            o.extend(args(&["--step", &r.range(1, 6).to_string()]));
            o.extend(args(&["--scale-factor", r.pick(&["0.9", "0.5", "1"])]));
            o.extend(args(&["--max-token-length", r.pick(&["4", "8", "24"])]));
        }
        "mine" => {
            o.extend(args(&["-n", &r.range(0, 8).to_string()]));
            m.insert("patterns".into(), json!((0..r.range(1, 3)).map(|_| *r.pick(PATTERNS)).collect::<Vec<_>>()));
        }
        _ => {
            m.insert("patterns".into(), json!((0..r.range(1, 4)).map(|_| *r.pick(PATTERNS)).collect::<Vec<_>>()));
        }
    }
    let _ = pro;
    m.insert("!opts".into(), json!(o));
    sc
}
/// Writes the inputs of a command; returns its arguments.
pub fn prepare(c: &Ctx, sc: &Value, output: &str) -> Vec<String> {
    let cmd = sc["cmd"].as_str().unwrap_or("");
    let mut a = args(&[cmd, "-o", output]);
    if matches!(cmd, "prune" | "filter" | "merge") {
        c.put("in.json", tokfile(sc).to_json().as_bytes());
        a.extend(args(&["-i", if sc["inplace"] == true { output } else { "in.json" }]));
        if sc["inplace"] == true {
            c.rm("in.json");
            c.put(output, tokfile(sc).to_json().as_bytes());
        }
    }
    a.extend(strs(&sc["!opts"]));
    a.extend(put_sources(c, &sc["sources"]));
    if cmd == "generate" {
        for p in strs(&sc["procs"]) {
            a.extend(args(&["--processor", &p]));
        }
        for s in strs(&sc["special"]) {
            a.extend(args(&["--special", &s]));
        }
    }
    for k in ["allow", "split"] {
        if let Some(p) = sc[k].as_str() {
            c.put(&format!("{k}.txt"), p.as_bytes());
            a.extend(args(&[&format!("--{k}"), &format!("{k}.txt")]));
        }
    }
    for k in ["added", "suggested"] {
        if sc[k].is_array() {
            c.put(&format!("{k}.json"), json!(strs(&sc[k])).to_string().as_bytes());
            a.extend(args(&[&format!("--{k}"), &format!("{k}.json")]));
        }
    }
    for p in strs(&sc["patterns"]) {
        a.extend(args(&["-p", &p]));
    }
    a
}
