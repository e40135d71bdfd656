//! A forest told by hand what to hold.
use super::*;
use drv_common::grammar::TableGrammar;

pub fn info(v: &Value) -> ForestInfo {
    let rules = u(&v["rules"]);
    let mut fi = ForestInfo::default();
    fi.eval = vec![cfg::history::earley::ExternalOrigin { id: !0 }; rules];
    fi.nulling_eliminated = vec![None; rules];
    for e in v["eval"].as_array().unwrap() {
        let id: u32 = e[1].as_str().unwrap().parse().unwrap();
        fi.eval[u(&e[0])].id = id;
    }
    for e in v["nulled"].as_array().unwrap() {
        fi.nulling_eliminated[u(&e[0])] = Some((sym(u(&e[1])), e[2].as_bool().unwrap()));
    }
    fi.nulling_intermediate_rules = v["middle"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| [sym(u(&r[0])), sym(u(&r[1])), sym(u(&r[2]))])
        .collect();
    fi.sof = sym(u(&v["sof"]));
    fi.eof = sym(u(&v["eof"]));
    fi.start = sym(u(&v["start"]));
    fi
}

pub fn run<B: Bocage>(s: &Value) -> Value {
    let mut ops = vec![];
    let g = TableGrammar::only_forest_info(info(&s["info"]));
    let mut f = B::make(&g, s["capacity"].as_u64().map(|x| x as usize));
    let mut nodes: Vec<NodeHandle> = vec![];
    let names = |x: Symbol| x.usize();
    let num = |v: &Value| -> u32 { v.as_str().unwrap().parse().unwrap() };
    for e in s["ops"].as_array().unwrap() {
        let fine = guarded(&mut ops, e.clone(), || {
            let mut e = e.clone();
            match e["op"].as_str().unwrap() {
                "leaf" => nodes.push(f.leaf(Symbol::from_raw(num(&e["sym"])), 0, num(&e["value"]))),
                "fill" => {
                    for _ in 0..u(&e["n"]) {
                        f.leaf(sym(1), 0, 77);
                    }
                }
                "nulling" => nodes.push(f.nulling(sym(u(&e["sym"])))),
                "product" => nodes.push(f.product(nodes[u(&e["l"]) - 1], nodes[u(&e["r"]) - 1])),
                "sum" => {
                    f.begin_sum();
                    for it in e["items"].as_array().unwrap() {
                        f.push_summand(Item { dot: u(&it[0]) as u32, origin: 0, node: nodes[u(&it[1]) - 1] });
                    }
                    nodes.push(f.sum(sym(u(&e["sym"])), 0));
                }
                "eval" => e["values"] = json!(f.texts(&names, nodes[u(&e["at"]) - 1])),
                other => panic!("driver: unknown op {other}"),
            }
            e
        });
        if !fine {
            break;
        }
    }
    json!(ops)
}
