//! Whole parses: a grammar as the user writes it, the recognizer, a forest, and the
//! evaluation of what was finished; forests driven by hand; the convenience parsers.
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cfg::Symbol;
use drv_common::grammar::{cfg_from_json, default_grammar, sym};
use drv_common::{main_loop, panic_text, u, us};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::{ForestInfo, Grammar};
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};
use serde_json::{json, Value};

mod fake;
mod utils;

/// Writes trees as text, see module CFG: tokens " symbol:value", nodes " (rule ...)",
/// what is derived from nothing " ~symbol".
struct Text<F: Fn(Symbol) -> usize>(F);
impl<F: Fn(Symbol) -> usize> Evaluate for Text<F> {
    type Elem = String;
    fn leaf(&self, terminal: Symbol, values: u32) -> String {
        format!(" {}:{}", (self.0)(terminal), values)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a String>) -> String {
        let mut s = format!(" ({action}");
        for a in args {
            s.push_str(a);
        }
        s.push(')');
        s
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<String>) {
        results.push(format!(" ~{}", (self.0)(symbol)));
    }
}

trait Bocage: Forest<NodeRef = NodeHandle> + Debug {
    fn make<G: Grammar>(g: G, cap: Option<usize>) -> Self;
    fn texts(&mut self, names: &dyn Fn(Symbol) -> usize, root: NodeHandle) -> Vec<String>;
}
impl Bocage for simple_bocage::Bocage {
    fn make<G: Grammar>(g: G, cap: Option<usize>) -> Self {
        match cap {
            Some(n) => simple_bocage::Bocage::with_capacity(g, n),
            None => simple_bocage::Bocage::new(g),
        }
    }
    fn texts(&mut self, names: &dyn Fn(Symbol) -> usize, root: NodeHandle) -> Vec<String> {
        self.evaluate(Text(names), root)
    }
}
impl Bocage for compact_bocage::Bocage {
    fn make<G: Grammar>(g: G, cap: Option<usize>) -> Self {
        match cap {
            Some(n) => compact_bocage::Bocage::with_capacity(g, n),
            None => compact_bocage::Bocage::new(g),
        }
    }
    fn texts(&mut self, names: &dyn Fn(Symbol) -> usize, root: NodeHandle) -> Vec<String> {
        self.evaluate(Text(names), root)
    }
}

fn guarded(ops: &mut Vec<Value>, during: Value, f: impl FnOnce() -> Value) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => {
            ops.push(v);
            true
        }
        Err(p) => {
            ops.push(json!({"op": "panic", "during": during, "msg": panic_text(p)}));
            false
        }
    }
}

/// A parse step by step, then evaluations of what was finished at some locations.
/// Location 0 is before the start of input was read, location 1 before the first token.
fn parse<B: Bocage>(g: &DefaultGrammar, s: &Value) -> Value {
    let mut ops = vec![];
    let word = us(&s["word"]);
    let values: Vec<u32> = match s["values"].as_array() {
        Some(v) => v.iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect(),
        None => (0..word.len() as u32).collect(),
    };
    let cap = s["capacity"].as_u64().map(|x| x as usize);
    let mut nodes: Vec<Option<NodeHandle>> = vec![];
    let mut forest = None;
    let fine = guarded(&mut ops, json!("parse"), || {
        let mut r = Recognizer::with_forest(g, B::make(g, cap));
        nodes.push(r.finished_node());
        r.begin_earleme();
        r.scan(g.sof(), 0);
        r.end_earleme();
        nodes.push(r.finished_node());
        let mut stopped = -1;
        for (i, &t) in word.iter().enumerate() {
            r.begin_earleme();
            if s["hint"].as_bool().unwrap_or(false) {
                match word.get(i + 1) {
                    Some(&x) => r.lookahead().set_hint(g.to_internal(sym(x)).unwrap_or(g.useless_symbol())),
                    None => r.lookahead().clear_hint(),
                };
            }
            r.scan(g.to_internal(sym(t)).unwrap_or(g.useless_symbol()), values[i]);
            if !r.end_earleme() {
                stopped = i as i64;
                break;
            }
            nodes.push(r.finished_node());
        }
        let finished: Vec<bool> = nodes.iter().map(|n| n.is_some()).collect();
        forest = Some(r.into_forest());
        json!({"op": "parse", "finished": finished, "stopped": stopped})
    });
    if fine {
        let mut forest = forest.unwrap();
        let names = |x: Symbol| g.to_external(x).usize();
        for at in us(&s["order"]) {
            if let Some(Some(node)) = nodes.get(at).copied() {
                if !guarded(&mut ops, json!({"eval": at}), || {
                    json!({"op": "eval", "at": at, "values": forest.texts(&names, node)})
                }) {
                    break;
                }
            }
        }
    }
    json!(ops)
}

fn one(s: &Value) -> Value {
    let mut out = s.clone();
    out["ops"] = match s["kind"].as_str().unwrap() {
        "parse" => match catch_unwind(AssertUnwindSafe(|| default_grammar(&s["cfg"]))) {
            Ok(g) => match s["forest"].as_str().unwrap() {
                "simple" => parse::<simple_bocage::Bocage>(&g, s),
                _ => parse::<compact_bocage::Bocage>(&g, s),
            },
            Err(p) => json!([{"op": "panic", "during": "construction", "msg": panic_text(p)}]),
        },
        "forest" => match s["forest"].as_str().unwrap() {
            "simple" => fake::run::<simple_bocage::Bocage>(s),
            _ => fake::run::<compact_bocage::Bocage>(s),
        },
        "utils" => utils::run(s),
        other => panic!("driver: unknown kind {other}"),
    };
    out
}

fn main() {
    main_loop(one);
}
