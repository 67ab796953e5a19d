mod frame;
mod gen;
mod json;
mod props;
mod reference;
mod sim;
mod tgx;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = env("VERIF_TIER", "quick");
    let props = props::all();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("oracle: {i}");
        }
    }));
    let find = |id: &str| {
        props.iter().find(|p| p.id().eq_ignore_ascii_case(id)).map(|b| b.as_ref()).unwrap_or_else(|| {
            eprintln!("no property {id:?}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => frame::check(find(&a[2]), seed, a.get(3).map(|s| s.as_str()).unwrap_or(&tier)),
        Some("replay") => frame::replay(&props, &a[2]),
        Some("selftest") => frame::selftest(&props, a.get(2).and_then(|s| s.parse().ok()).unwrap_or(20), seed),
        Some("one") => frame::one(find(&a[2]), a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(0)),
        _ => {
            eprintln!("usage: dst check ID | replay FILE | selftest [N] | one ID SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
