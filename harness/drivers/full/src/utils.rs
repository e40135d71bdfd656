//! The convenience parsers.
use super::*;
use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use gearley_forest::NullForest;

fn result(r: Result<bool, String>) -> Value {
    match r {
        Ok(b) => json!({"ok": b}),
        Err(e) => json!({"err": e}),
    }
}

/// The tokens of a tree with their values, from left to right.
struct Yield<F: Fn(Symbol) -> usize>(F);
impl<F: Fn(Symbol) -> usize> Evaluate for Yield<F> {
    type Elem = String;
    fn leaf(&self, terminal: Symbol, values: u32) -> String {
        format!(" {}:{}", (self.0)(terminal), values)
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a String>) -> String {
        args.cloned().collect()
    }
    fn nulling<'r>(&self, _: Symbol, results: &'r mut Vec<String>) {
        results.push(String::new());
    }
}

/// Parses a word, after other words that the recognizer was made to forget.
fn parse<F: Forest>(e: &Value, r: &mut Recognizer<&DefaultGrammar, F>) -> Value
where
    for<'a> Recognizer<&'a DefaultGrammar, F>: RecognizerParseExt,
{
    let word = |w: &Value| us(w).into_iter().map(sym).collect::<Vec<Symbol>>();
    for w in e["before"].as_array().into_iter().flatten() {
        let _ = r.parse(&word(w));
        r.reset();
    }
    result(r.parse(&word(&e["word"])).map_err(|x| x.to_string()))
}

/// `ParseError` is seen through its text only: the type has no public name.
pub fn run(s: &Value) -> Value {
    let mut ops = vec![];
    for e in s["ops"].as_array().unwrap() {
        let fine = guarded(&mut ops, e.clone(), || {
            let mut e = e.clone();
            let g = default_grammar(&s["cfg"]);
            let op = e["op"].as_str().unwrap().to_string();
            let text = |x: &dyn std::fmt::Display| x.to_string();
            match &op[..] {
                "parse" => {
                    e["res"] = match s["forest"].as_str().unwrap() {
                        "simple" => {
                            let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
                            let res = parse(&e, &mut r);
                            e["node"] = json!(r.finished_node().is_some());
                            if let (true, Some(node)) = (e["leaves"] == json!([]), r.finished_node()) {
                                let names = |x| g.to_external(x).usize();
                                let mut all = r.into_forest().evaluate(Yield(names), node);
                                all.sort();
                                all.dedup();
                                e["leaves"] = json!(all);
                            }
                            res
                        }
                        "compact" => {
                            let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
                            let res = parse(&e, &mut r);
                            e["node"] = json!(r.finished_node().is_some());
                            if let (true, Some(node)) = (e["leaves"] == json!([]), r.finished_node()) {
                                let names = |x| g.to_external(x).usize();
                                let mut all = r.into_forest().evaluate(Yield(names), node);
                                all.sort();
                                all.dedup();
                                e["leaves"] = json!(all);
                            }
                            res
                        }
                        _ => {
                            let mut r = Recognizer::with_forest(&g, NullForest);
                            let res = parse(&e, &mut r);
                            e["node"] = json!(r.is_finished());
                            res
                        }
                    };
                }
                "words" => {
                    let list: Vec<String> =
                        e["list"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    let cfg = cfg_from_json(&s["cfg"]);
                    e["res"] = result(parse_terminal_list(cfg, g, list.iter().map(|x| &x[..])).map_err(|x| text(&x)));
                }
                "chars" => {
                    let mut map = LexerMap::default();
                    for c in s["classes"].as_array().unwrap() {
                        let ch = |v: &Value| v.as_str().unwrap().chars().next().unwrap();
                        map.insert(ch(&c[0]), ch(&c[1]), sym(u(&c[2])));
                    }
                    let loaded = AdvancedGrammar { cfg: cfg_from_json(&s["cfg"]), lexer_map: map };
                    e["res"] = result(parse_tokenizing(loaded, g, e["text"].as_str().unwrap()).map_err(|x| text(&x)));
                }
                other => panic!("driver: unknown op {other}"),
            }
            e
        });
        if !fine {
            break;
        }
    }
    json!(ops)
}
