//! Local simplifications of a case, as JSON.
use serde_json::{json, Value};

/// All values obtained by one local simplification.
pub fn candidates(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() {
                out.push(Value::Array(a[..a.len() / 2].to_vec()));
                for i in 0..a.len().min(64) {
                    let mut b = a.clone();
                    b.remove(i);
                    out.push(Value::Array(b));
                }
            }
            for i in 0..a.len().min(64) {
                let mut sub = Vec::new();
                candidates(&a[i], &mut sub);
                for s in sub {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                let mut sub = Vec::new();
                candidates(x, &mut sub);
                for s in sub {
                    let mut b = o.clone();
                    b.insert(k.clone(), s);
                    out.push(Value::Object(b));
                }
            }
        }
        Value::Number(n) => {
            if let Some(x) = n.as_u64() {
                for y in [0, x / 2, x - (x > 0) as u64] {
                    if y < x {
                        out.push(json!(y));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        _ => {}
    }
}
