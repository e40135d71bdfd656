//! Recognizer histories over a grammar given as tables ("g"), and over the
//! grammar built from a `Cfg` ("cfg").
use drv_common::grammar::{default_grammar, dump, TableGrammar};
use drv_common::{main_loop, panic_text, session::session, u};
use gearley_default_grammar::DefaultGrammar;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn one(s: &Value) -> Value {
    if s["g"].is_object() {
        let g = TableGrammar::from_json(&s["g"]);
        let mut out = s.clone();
        out["ops"] = session(&g, s);
        out
    } else {
        let n = u(&s["cfg"]["syms"]);
        let mut out = s.clone();
        match catch_unwind(AssertUnwindSafe(|| {
            let g = default_grammar(&s["cfg"]);
            // "through": the tables after being written and read again
            let g: DefaultGrammar = match s["through"].as_str() {
                Some("miniserde") => miniserde::json::from_str(&miniserde::json::to_string(&g)).unwrap(),
                Some("serde") => serde_json::from_str(&serde_json::to_string(&g).unwrap()).unwrap(),
                Some("clone") => g.clone(),
                _ => g,
            };
            g
        })) {
            Ok(g) => {
                out["tables"] = dump(&&g, n);
                let mut s = s.clone();
                // scripts speak external symbols; the recognizer internal ones
                use gearley_grammar::Grammar;
                if let Some(ops) = s["ops"].as_array_mut() {
                    for e in ops.iter_mut() {
                        if let Some(x) = e["ext"].as_u64() {
                            let i = g.to_internal(drv_common::grammar::sym(x as usize));
                            match i {
                                Some(i) => e["sym"] = json!(i.usize()),
                                None => e["sym"] = json!(g.useless_symbol().usize()),
                            }
                        } else if e["sof"].as_bool() == Some(true) {
                            e["sym"] = json!(g.sof().usize());
                        }
                    }
                    out["ops"] = session(&g, &s);
                }
            }
            Err(p) => {
                out["panic"] = json!(panic_text(p));
                out["ops"] = json!([{"op": "panic", "during": "construction"}]);
            }
        }
        out
    }
}

fn main() {
    main_loop(one);
}
