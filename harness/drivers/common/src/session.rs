//! Executes a history of recognizer calls and records what can be seen.
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use gearley_vec2d::Vec2dCapacity;
use serde_json::{json, Value};

use crate::forest::{take_log, NodeText, RecForest};
use crate::grammar::sym;
use crate::{id, panic_text, u, us};

/// The lookahead switched off.
pub struct NoLookahead;
impl PerfHint for NoLookahead {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = cfg_symbol::Symbol;
}
/// No memory reserved at all.
pub struct Tiny;
impl PerfHint for Tiny {
    const LOOKAHEAD: bool = true;
    const LEO: bool = false;
    type Symbol = cfg_symbol::Symbol;
    fn completion_capacity(&self) -> usize {
        0
    }
    fn medial_capacity(&self) -> Vec2dCapacity {
        Vec2dCapacity {
            chart_capacity: 0,
            indices_capacity: 0,
        }
    }
}

/// What is visible between `begin_earleme` and the first scan.
fn begun<G: Grammar, F: Forest, P: PerfHint>(r: &Recognizer<G, F, P>, more: bool) -> Value
where
    F::NodeRef: NodeText,
{
    let mut v = json!({
        "earleme": r.earleme(),
        "pred": r.predicted_symbols().map(|s| s.usize()).collect::<Vec<_>>(),
        "med": r.medial_items().map(|i| json!([i.dot, i.origin])).collect::<Vec<_>>(),
        "nodes": r.medial_items().map(|i| i.node.text()).collect::<Vec<_>>(),
    });
    if more {
        v["trace"] = json!(r.trace().map(|(d, o)| json!([id(d.id), id(d.pos), o])).collect::<Vec<_>>());
        v["events"] = json!(r.events().map(|(e, d)| json!([id(e.id), id(d.distance)])).collect::<Vec<_>>());
        v["expected"] = json!(r.expected_terminals().map(|s| s.usize()).collect::<Vec<_>>());
        v["dists"] = json!(r.minimal_distances().map(|d| id(d)).collect::<Vec<_>>());
    }
    v
}

fn ended<G: Grammar, F: Forest, P: PerfHint>(r: &Recognizer<G, F, P>) -> Value
where
    F::NodeRef: NodeText,
{
    json!({
        "exhausted": r.is_exhausted(),
        "finished": r.is_finished(),
        "node": r.finished_node().map_or(json!(0), |n| n.text()),
    })
}

fn step<G: Grammar, F: Forest, P: PerfHint>(
    r: &mut Recognizer<G, F, P>,
    e: &Value,
    more: bool,
) -> Value
where
    F::NodeRef: NodeText,
{
    match e["op"].as_str().unwrap() {
        "begin" => {
            r.begin_earleme();
            begun(r, more)
        }
        "hint" => {
            r.lookahead().set_hint(sym(u(&e["sym"])));
            json!({"hint": r.lookahead().sym().map_or(-1, |s| s.usize() as i64)})
        }
        "unhint" => {
            r.lookahead().clear_hint();
            json!({"hint": r.lookahead().sym().map_or(-1, |s| s.usize() as i64)})
        }
        "scan" => {
            r.scan(sym(u(&e["sym"])), u(&e["value"]) as u32);
            json!({"exhausted": r.is_exhausted()})
        }
        // a token that began `back` retained locations ago
        "span" => {
            let (here, back) = (r.earleme() as i64, u(&e["back"]) as i64);
            let mut set = -1;
            if here >= back {
                set = here - back;
                let node = F::NodeRef::token(u(&e["sym"]), set as u32);
                r.complete(set as u32, sym(u(&e["sym"])), node);
            }
            json!({"set": set, "exhausted": r.is_exhausted()})
        }
        "end" => {
            let ret = r.end_earleme();
            let mut v = ended(r);
            v["ret"] = json!(ret);
            v["hint"] = json!(r.lookahead().sym().map_or(-1, |s| s.usize() as i64));
            v
        }
        // The completion loop spelled out, in place of the one inside of `end_earleme`.
        // A group whose (symbol, origin) is listed in `skip` is skipped; a
        // summand whose dot is listed in `reject` is not pushed.
        "groups" => {
            let skip: Vec<Vec<usize>> = e["skip"].as_array().map_or(vec![], |a| a.iter().map(us).collect());
            let reject: Vec<usize> = e["reject"].as_array().map_or(vec![], |_| us(&e["reject"]));
            let how = e["how"].as_str().unwrap();
            let mut groups = vec![];
            if how == "all" {
                r.complete_all_sums_entirely();
                return json!({"groups": groups, "hint": r.lookahead().sym().map_or(-1, |s| s.usize() as i64)});
            }
            while let Some(mut g) = r.next_sum() {
                let key = vec![g.symbol().usize(), g.origin() as usize];
                if skip.contains(&key) {
                    g.skip_entire_sum();
                    groups.push(json!({"sym": key[0], "origin": key[1], "dots": [], "done": false}));
                    continue;
                }
                if how == "entire" {
                    g.complete_entire_sum();
                    groups.push(json!({"sym": key[0], "origin": key[1], "dots": [], "done": true}));
                    continue;
                }
                let mut dots = vec![];
                let mut pushed = 0;
                while let Some(item) = g.next_summand() {
                    dots.push(json!([item.dot, item.origin, item.node.text()]));
                    if !reject.contains(&(item.dot as usize)) {
                        g.push_summand(item);
                        pushed += 1;
                    }
                }
                if pushed > 0 {
                    g.complete_sum();
                }
                groups.push(json!({"sym": key[0], "origin": key[1], "dots": dots, "done": pushed > 0}));
            }
            r.lookahead().clear_hint();
            json!({"groups": groups})
        }
        "advance" => {
            r.advance_after_completion();
            ended(r)
        }
        "reset" => {
            r.reset();
            json!({"earleme": r.earleme() as u32 as i32, "exhausted": r.is_exhausted(),
                   "hint": r.lookahead().sym().map_or(-1, |s| s.usize() as i64)})
        }
        "finished" => ended(r),
        other => panic!("driver: unknown op {other}"),
    }
}

fn run<G: Grammar, F: Forest, P: PerfHint>(mut r: Recognizer<G, F, P>, s: &Value) -> Value
where
    F::NodeRef: NodeText,
{
    let more = s["more"].as_bool().unwrap_or(false);
    let mut done = vec![];
    take_log();
    for e in s["ops"].as_array().unwrap() {
        let mut rec = e.clone();
        match catch_unwind(AssertUnwindSafe(|| step(&mut r, e, more))) {
            Ok(obs) => {
                rec["obs"] = obs;
                let log = take_log();
                if e["op"] != "begin" && e["op"] != "reset" {
                    rec["log"] = json!(log);
                }
                let stop = rec["obs"]["ret"] == json!(false);
                done.push(rec);
                if stop && !s["past_failure"].as_bool().unwrap_or(false) {
                    break;
                }
            }
            Err(p) => {
                done.push(json!({"op": "panic", "during": e, "msg": panic_text(p)}));
                break;
            }
        }
    }
    json!(done)
}

/// Runs a session with the forest and the policy it asks for.
pub fn session<G: Grammar + Debug>(g: &G, s: &Value) -> Value {
    let policy = s["policy"].as_str().unwrap_or("default");
    let made = catch_unwind(AssertUnwindSafe(|| match (s["forest"].as_str().unwrap_or("rec"), policy) {
        ("null", "plain") => run(Recognizer::new(g), s),
        ("null", "tiny") => run(Recognizer::with_forest_and_policy(g, NullForest, Tiny), s),
        ("null", "nolook") => run(Recognizer::with_forest_and_policy(g, NullForest, NoLookahead), s),
        ("null", _) => run(Recognizer::with_forest(g, NullForest), s),
        (_, "tiny") => run(Recognizer::with_forest_and_policy(g, RecForest::default(), Tiny), s),
        (_, "nolook") => run(Recognizer::with_forest_and_policy(g, RecForest::default(), NoLookahead), s),
        (_, "sized") => run(
            Recognizer::with_forest_and_policy(
                g,
                RecForest::default(),
                DefaultPerfHint::with_token_count_and_num_syms(u(&s["memory"]), u(&s["tokens"]), u(&s["nsyms"])),
            ),
            s,
        ),
        (_, _) => run(Recognizer::with_forest(g, RecForest::default()), s),
    }));
    match made {
        Ok(v) => v,
        Err(p) => json!([{"op": "panic", "during": "construction", "msg": panic_text(p)}]),
    }
}
