// Runs a list of operations against the real tokengeex library and prints one
// JSON result per operation. Bytes travel as hex, scores as f64 bit patterns.
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, RwLock};
use tokengeex::{CrlfProcessor, Error, Model, ProcessorWrapper, ScoredToken, Tokenizer, UnicodeProcessor};

type Slot = Arc<RwLock<Tokenizer>>;
static EVENTS: AtomicU64 = AtomicU64::new(0);

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn bits(v: &Value) -> f64 {
    f64::from_bits(u64::from_str_radix(v.as_str().unwrap(), 16).unwrap())
}
fn s<'a>(o: &'a Value, k: &str) -> &'a str {
    o[k].as_str().unwrap_or_else(|| panic!("missing {k} in {o}"))
}
fn toks(v: &Value) -> Vec<ScoredToken> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| ScoredToken::new(unhex(t[0].as_str().unwrap()), bits(&t[1]), t[2].as_bool().unwrap()))
        .collect()
}
fn tok(t: &ScoredToken) -> Value {
    json!([hex(&t.value), format!("{:016x}", t.score.to_bits()), t.keep])
}
fn procs(v: &Value) -> Vec<ProcessorWrapper> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| match p.as_str().unwrap() {
            "crlf" => ProcessorWrapper::Crlf(CrlfProcessor),
            "nfc" => ProcessorWrapper::Unicode(UnicodeProcessor::Nfc),
            "nfd" => ProcessorWrapper::Unicode(UnicodeProcessor::Nfd),
            "nfkc" => ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc),
            _ => ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd),
        })
        .collect()
}
fn proc_name(p: &ProcessorWrapper) -> &'static str {
    match p {
        ProcessorWrapper::Crlf(_) => "crlf",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfc) => "nfc",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfd) => "nfd",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc) => "nfkc",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd) => "nfkd",
    }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn ids(v: &Value) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
}
fn err(e: &Error) -> Value {
    let k = match e {
        Error::IO(_) => "io".to_string(),
        Error::SerdeJSON(_) => "json".to_string(),
        Error::TokenIdOutOfBounds(i) => format!("oob:{i}"),
        Error::NoPath(a, b) => format!("nopath:{a}:{b}"),
    };
    json!({"err": k, "msg": e.to_string()})
}
fn res<T, F: Fn(T) -> Value>(r: Result<T, Error>, f: F) -> Value {
    match r {
        Ok(v) => json!({"ok": f(v)}),
        Err(e) => err(&e),
    }
}
fn dump(t: &Tokenizer) -> Value {
    let n = t.base_vocab_size();
    let vocab: Vec<Value> = (0..n).map(|i| t.id_to_base_token(i as u32).map_or(Value::Null, |x| tok(&x))).collect();
    json!({
        "vocab": vocab,
        "special": t.special_tokens(),
        "processors": t.processors().iter().map(proc_name).collect::<Vec<_>>(),
        "sizes": [t.vocab_size(), t.base_vocab_size(), t.special_vocab_size()],
    })
}
fn p_of(o: &Value) -> f64 {
    o["p"].as_f64().unwrap_or(0.0)
}

// An operation on one tokenizer, under the lock the caller holds.
fn on_ref(t: &Tokenizer, o: &Value) -> Value {
    match s(o, "op") {
        "encode" => res(t.encode(s(o, "text"), p_of(o)), |v| json!(v)),
        "encode_ordinary" => res(t.encode_ordinary(s(o, "text"), p_of(o)), |v| json!(v)),
        "encode_batch" => res(t.encode_batch(strs(&o["texts"]), p_of(o)), |v| json!(v)),
        "encode_ordinary_batch" => res(t.encode_ordinary_batch(strs(&o["texts"]), p_of(o)), |v| json!(v)),
        "decode" => res(t.decode(&ids(&o["ids"]), o["special"].as_bool().unwrap()), |v| json!(v)),
        "decode_batch" => res(
            t.decode_batch(o["ids"].as_array().unwrap().iter().map(ids).collect::<Vec<_>>(), o["special"].as_bool().unwrap()),
            |v| json!(v),
        ),
        // how often each of the two-way outcomes appears over many calls
        "repeat" => {
            let n = o["n"].as_u64().unwrap();
            let txt = s(o, "text");
            let ord = o["ordinary"].as_bool().unwrap_or(false);
            let mut out = vec![];
            for _ in 0..n {
                match if ord { t.encode_ordinary(txt, p_of(o)) } else { t.encode(txt, p_of(o)) } {
                    Ok(v) => out.push(json!(v)),
                    Err(e) => return err(&e),
                }
            }
            json!({"ok": out})
        }
        "token_to_id" => json!({"ok": t.token_to_id(&unhex(s(o, "token")))}),
        "base_token_to_id" => json!({"ok": t.base_token_to_id(&unhex(s(o, "token")))}),
        "special_token_to_id" => json!({"ok": t.special_token_to_id(s(o, "token"))}),
        "id_to_token" => json!({"ok": t.id_to_token(o["id"].as_u64().unwrap() as u32).map(|b| hex(&b))}),
        "id_to_base_token" => json!({"ok": t.id_to_base_token(o["id"].as_u64().unwrap() as u32).map(|b| tok(&b))}),
        "id_to_special_token" => json!({"ok": t.id_to_special_token(o["id"].as_u64().unwrap() as u32)}),
        "is_special" => json!({"ok": t.is_special(o["id"].as_u64().unwrap() as u32)}),
        "is_base" => json!({"ok": t.is_base(o["id"].as_u64().unwrap() as u32)}),
        "sizes" => json!({"ok": [t.vocab_size(), t.base_vocab_size(), t.special_vocab_size()]}),
        "special_tokens" => json!({"ok": t.special_tokens()}),
        "prefix" => {
            let mut buf = vec![];
            let v: Vec<(u32, u32)> = t.model().common_prefix_search(&unhex(s(o, "token")), &mut buf).collect();
            json!({"ok": v})
        }
        "dump" => json!({"ok": dump(t)}),
        "to_string" => json!({"ok": t.to_string()}),
        "save" => match t.save(s(o, "path")) {
            Ok(()) => json!({"ok": true}),
            Err(e) => json!({"err": "save", "msg": e.to_string()}),
        },
        x => panic!("unknown operation {x}"),
    }
}
fn on_mut(t: &mut Tokenizer, o: &Value) -> Option<Value> {
    match s(o, "op") {
        "add_special" => {
            t.add_special_tokens(strs(&o["tokens"]));
            Some(json!({"ok": true}))
        }
        "add_base" => {
            t.add_base_tokens(toks(&o["tokens"]));
            Some(json!({"ok": true}))
        }
        _ => None,
    }
}
fn is_mut(o: &Value) -> bool {
    matches!(s(o, "op"), "add_special" | "add_base")
}
fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"panic": m})
        }
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("scenario file");
    let sc: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let quiet = sc["quiet_panics"].as_bool().unwrap_or(true);
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut slots: Vec<Option<Slot>> = (0..16).map(|_| None).collect();
    let stdout = std::io::stdout();
    for o in sc["ops"].as_array().unwrap() {
        let slot = o["slot"].as_u64().unwrap_or(0) as usize;
        let r = match s(o, "op") {
            "new" => guarded(|| {
                let t = Tokenizer::new(Model::from(toks(&o["vocab"])), procs(&o["processors"]), strs(&o["special"]));
                slots[slot] = Some(Arc::new(RwLock::new(t)));
                json!({"ok": true})
            }),
            "load" => guarded(|| match Tokenizer::from_file(s(o, "path")) {
                Ok(t) => {
                    slots[slot] = Some(Arc::new(RwLock::new(t)));
                    json!({"ok": true})
                }
                Err(e) => err(&e),
            }),
            "from_str" => guarded(|| match Tokenizer::from_str(s(o, "json")) {
                Ok(t) => {
                    slots[slot] = Some(Arc::new(RwLock::new(t)));
                    json!({"ok": true})
                }
                Err(e) => err(&e),
            }),
            // through the string form, inside this process
            "restring" => guarded(|| {
                let x = slots[o["from"].as_u64().unwrap() as usize].clone();
                match x {
                    None => json!({"err": "empty slot"}),
                    Some(x) => {
                        let j = x.read().unwrap().to_string();
                        match Tokenizer::from_str(&j) {
                            Ok(t) => {
                                slots[slot] = Some(Arc::new(RwLock::new(t)));
                                json!({"ok": true})
                            }
                            Err(e) => err(&e),
                        }
                    }
                }
            }),
            "clone" => guarded(|| {
                let x = slots[o["from"].as_u64().unwrap() as usize].clone();
                match x {
                    None => json!({"err": "empty slot"}),
                    Some(x) => {
                        let t = x.read().unwrap().clone();
                        slots[slot] = Some(Arc::new(RwLock::new(t)));
                        json!({"ok": true})
                    }
                }
            }),
            "par" => {
                let mut hs = vec![];
                for ops in o["threads"].as_array().unwrap() {
                    let ops = ops.as_array().unwrap().clone();
                    let slots = slots.clone();
                    hs.push(std::thread::spawn(move || {
                        let mut out = vec![];
                        for o in &ops {
                            let slot = o["slot"].as_u64().unwrap_or(0) as usize;
                            let Some(l) = slots[slot].clone() else {
                                out.push(json!({"err": "empty slot"}));
                                continue;
                            };
                            let mut at = 0;
                            let mut r = guarded(|| {
                                if is_mut(o) {
                                    let mut g = l.write().unwrap_or_else(|e| e.into_inner());
                                    at = EVENTS.fetch_add(1, Ordering::SeqCst);
                                    on_mut(&mut g, o).unwrap()
                                } else {
                                    let g = l.read().unwrap_or_else(|e| e.into_inner());
                                    at = EVENTS.fetch_add(1, Ordering::SeqCst);
                                    on_ref(&g, o)
                                }
                            });
                            if let Some(m) = r.as_object_mut() {
                                m.insert("at".into(), json!(at));
                            }
                            out.push(r);
                        }
                        out
                    }));
                }
                let all: Vec<Value> = hs
                    .into_iter()
                    .map(|h| match h.join() {
                        Ok(v) => json!(v),
                        Err(_) => json!({"panic": "client thread"}),
                    })
                    .collect();
                json!({ "par": all })
            }
            _ => match slots[slot].clone() {
                None => json!({"err": "empty slot"}),
                Some(l) => guarded(|| {
                    if is_mut(o) {
                        on_mut(&mut l.write().unwrap_or_else(|e| e.into_inner()), o).unwrap()
                    } else {
                        on_ref(&l.read().unwrap_or_else(|e| e.into_inner()), o)
                    }
                }),
            },
        };
        use std::io::Write;
        let mut m = Map::new();
        m.insert("r".into(), r);
        let mut line = serde_json::to_string(&Value::Object(m)).unwrap();
        line.push('\n');
        stdout.lock().write_all(line.as_bytes()).unwrap();
        stdout.lock().flush().unwrap();
    }
}
