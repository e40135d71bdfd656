//! Executes histories of operations on the real `CartesianProduct`.
//! argv: script.ndjson out.ndjson.  All slices of a session are parts of one
//! array, given as [first element, length] from 1; they may overlap.  `tuple`
//! says for every reference which element of the array it points at: 0 for a
//! stray one.
use cartesian_product::CartesianProduct;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Elements of several sizes; identity is the address, contents are checked too.
trait Element {
    fn of(i: usize) -> Self;
    fn is(&self, i: usize) -> bool;
}
impl Element for (i64, i64) {
    fn of(i: usize) -> Self {
        (i as i64, -(i as i64))
    }
    fn is(&self, i: usize) -> bool {
        *self == (i as i64, -(i as i64))
    }
}
impl Element for u8 {
    fn of(i: usize) -> Self {
        i as u8
    }
    fn is(&self, i: usize) -> bool {
        *self == i as u8
    }
}
impl Element for String {
    fn of(i: usize) -> Self {
        i.to_string()
    }
    fn is(&self, i: usize) -> bool {
        *self == i.to_string()
    }
}
#[repr(align(64))]
struct Wide([u16; 40]);
impl Element for Wide {
    fn of(i: usize) -> Self {
        Wide([i as u16; 40])
    }
    fn is(&self, i: usize) -> bool {
        self.0 == [i as u16; 40]
    }
}

fn history<V: Element>(session: &Value) -> Value {
    let quiet = session["last_only"].as_bool().unwrap_or(false);
    let total = session["size"].as_u64().unwrap() as usize;
    // Guard elements around it, so that a reference outside still reads memory.
    const GUARD: usize = 8;
    let pool: Vec<V> = (0..total + 2 * GUARD).map(V::of).collect();
    let pool = &pool[..];
    let slice = |v: &Value| {
        let first = v[0].as_u64().unwrap() as usize;
        let at = GUARD + first - 1;
        &pool[at..at + v[1].as_u64().unwrap() as usize]
    };
    let ops = session["ops"].as_array().unwrap();
    let mut done = vec![];
    let mut cp: CartesianProduct<V> = CartesianProduct::new();
    for (i, e) in ops.iter().enumerate() {
        let mut rec = e.clone();
        let want = !quiet || i + 1 == ops.len();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut reply = json!(["none"]);
            match e["op"].as_str().unwrap() {
                "new" => cp = CartesianProduct::new(),
                "clear" => cp.clear(),
                "push" => cp.push(slice(&e["f"])),
                "extend" => {
                    let v: Vec<&[V]> = e["fs"].as_array().unwrap().iter().map(slice).collect();
                    if e["lazy"].as_bool().unwrap_or(false) {
                        cp.extend(v.into_iter().filter(|_| true))
                    } else {
                        cp.extend(v.into_iter())
                    }
                }
                "advance" => reply = json!(["bool", cp.advance()]),
                "advances" => {
                    // how often it wraps
                    let n = e["n"].as_u64().unwrap();
                    reply = json!(["wraps", (0..n).filter(|_| !cp.advance()).count()])
                }
                other => panic!("driver: unknown op {other}"),
            }
            let lo = pool.as_ptr() as usize;
            let hi = lo + std::mem::size_of_val(pool);
            let t: Vec<usize> = cp
                .as_slice()
                .iter()
                .map(|r| {
                    let p = *r as *const V as usize;
                    if p < lo || p >= hi || (p - lo) % std::mem::size_of::<V>() != 0 {
                        return 0;
                    }
                    let k = (p - lo) / std::mem::size_of::<V>();
                    if k < GUARD || !r.is(k) {
                        return 0;
                    }
                    k - GUARD + 1
                })
                .collect();
            (reply, t)
        }));
        match r {
            Ok((reply, t)) => {
                rec["reply"] = reply;
                if want {
                    rec["tuple"] = json!(t);
                }
                done.push(rec);
            }
            Err(_) => {
                done.push(json!({"op": "panic", "during": e}));
                break;
            }
        }
    }
    json!({ "size": total, "ops": done })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let f = BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in f.lines() {
        let session: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let run = match session["kind"].as_str() {
            Some("u8") => history::<u8>,
            Some("string") => history::<String>,
            Some("wide") => history::<Wide>,
            _ => history::<(i64, i64)>,
        };
        writeln!(out, "{}", run(&session)).unwrap();
    }
    out.flush().unwrap();
}
