use crate::frame::{viol, Prop, Verdict};
use crate::gen::bad_end;
use crate::sim::Run;
use serde_json::Value;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c22;
mod c23;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c03::C03), Box::new(c04::C04), Box::new(c05::C05), Box::new(c06::C06), Box::new(c07::C07), Box::new(c08::C08), Box::new(c09::C09), Box::new(c10::C10), Box::new(c11::C11), Box::new(c12::C12), Box::new(c13::C13), Box::new(c14::C14), Box::new(c15::C15), Box::new(c16::C16), Box::new(c22::C22), Box::new(c23::C23)]
}

/// The driver has to survive every operation.
pub fn alive(r: &Run, v: &[Value], n: usize) -> Result<(), Verdict> {
    if let Some(e) = bad_end(r) {
        return Err(viol("hang", e));
    }
    if v.len() != n || !r.ok() {
        return Err(viol("died", format!("{} after {} of {n} operations: {}", r.status(), v.len(), r.panic_line())));
    }
    Ok(())
}
/// The value of an operation that has to succeed.
pub fn okv<'a>(v: &'a Value, what: &str) -> Result<&'a Value, Verdict> {
    v.get("ok").ok_or_else(|| viol("failed", format!("{what}: {}", crate::util::clip(&v.to_string(), 200))))
}
/// A tokenizer as the client of either language makes it.
pub fn start_op(python: bool, slot: u64, f: &crate::tgx::TokFile) -> Value {
    if python {
        serde_json::json!({"op": "from_str", "slot": slot, "json": f.to_json()})
    } else {
        crate::gen::new_op(slot, f)
    }
}
/// without the position in the history
pub fn bare(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        m.remove("at");
    }
    v
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::frame::viol($class, format!($($a)*)));
        }
    };
}
