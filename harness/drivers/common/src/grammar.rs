//! Grammars from JSON.
use bit_matrix::row::BitSlice;
use bit_matrix::BitMatrix;
use cfg::Cfg;
use cfg_history::earley::*;
use cfg_symbol::{Symbol, SymbolSource};
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::{ForestInfo, Grammar, NullingIntermediateRule, PredictionTransition};
use serde_json::{json, Value};

use crate::{id, u, us};

pub fn sym(i: usize) -> Symbol {
    <SymbolSource>::generate_fresh().nth(i).unwrap()
}

/// A grammar that is nothing but the tables of a JSON object.
#[derive(Debug, Default)]
pub struct TableGrammar {
    nsyms: usize,
    ngens: usize,
    lhs: Vec<Symbol>,
    rhs1: Vec<Option<Symbol>>,
    start: Symbol,
    sof: Symbol,
    eof: Symbol,
    dot_before_eof: u32,
    trivial: bool,
    pred: BitMatrix,
    first: BitMatrix,
    follow: BitMatrix,
    completions: Vec<Vec<PredictionTransition>>,
    gen: Vec<[Option<PredictionTransition>; 2]>,
    events: [Vec<EventAndDistance>; 2],
    trace: [Vec<ExternalDottedRule>; 3],
    forest_info: ForestInfo,
}

fn matrix(v: &Value, cols: usize) -> BitMatrix {
    let rows = v.as_array().unwrap();
    let mut m = BitMatrix::new(rows.len(), cols);
    for (i, r) in rows.iter().enumerate() {
        for j in us(r) {
            m.set(i, j, true);
        }
    }
    m
}
fn trans(v: &Value) -> PredictionTransition {
    PredictionTransition {
        symbol: sym(u(&v["symbol"])),
        dot: u(&v["dot"]) as u32,
        is_unary: v["unary"].as_bool().unwrap(),
    }
}
fn num(v: &Value) -> u32 {
    v.as_i64().unwrap() as i32 as u32
}

impl TableGrammar {
    pub fn from_json(v: &Value) -> Self {
        let nsyms = u(&v["nsyms"]);
        let rules = v["rules"].as_array().unwrap();
        let dots = |name: &str| -> Vec<ExternalDottedRule> {
            v["trace"][name]
                .as_array()
                .map(|a| a.iter().map(|x| ExternalDottedRule { id: num(&x[0]), pos: num(&x[1]) }).collect())
                .unwrap_or_default()
        };
        let events = |name: &str| -> Vec<EventAndDistance> {
            v["events"][name]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|x| (EventId { id: num(&x[0]) }, MinimalDistance { distance: num(&x[1]) }))
                        .collect()
                })
                .unwrap_or_default()
        };
        TableGrammar {
            nsyms,
            ngens: u(&v["ngens"]),
            lhs: rules.iter().map(|r| sym(u(&r[0]))).collect(),
            rhs1: rules.iter().map(|r| r.get(2).map(|x| sym(u(x)))).collect(),
            start: sym(u(&v["start"])),
            sof: sym(u(&v["sof"])),
            eof: sym(u(&v["eof"])),
            dot_before_eof: u(&v["dot_before_eof"]) as u32,
            trivial: v["trivial"].as_bool().unwrap_or(false),
            pred: matrix(&v["pred"], nsyms),
            first: matrix(&v["first"], nsyms),
            follow: matrix(&v["follow"], nsyms),
            completions: v["completions"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| r.as_array().unwrap().iter().map(trans).collect())
                .collect(),
            gen: v["gen"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| {
                    let mut p = [None, None];
                    for t in r.as_array().unwrap().iter().map(trans) {
                        p[t.is_unary as usize] = Some(t);
                    }
                    p
                })
                .collect(),
            events: [events("predict"), events("dot1")],
            trace: [dots("predict"), dots("dot1"), dots("dot2")],
            forest_info: ForestInfo::default(),
        }
    }

    /// For forests, which only ask for this.
    pub fn only_forest_info(forest_info: ForestInfo) -> Self {
        TableGrammar {
            start: forest_info.start,
            sof: forest_info.sof,
            eof: forest_info.eof,
            forest_info,
            ..Default::default()
        }
    }
}

impl Grammar for TableGrammar {
    fn sof(&self) -> Symbol {
        self.sof
    }
    fn eof(&self) -> Symbol {
        self.eof
    }
    fn lhs_lr_set(&self, lhs: Symbol) -> &BitSlice {
        &self.follow[lhs.usize()]
    }
    fn lookahead_set(&self, dot: u32) -> &BitSlice {
        match self.rhs1[dot as usize] {
            Some(s) => &self.first[s.usize()],
            None => &self.follow[self.lhs[dot as usize].usize()],
        }
    }
    fn rhs1_or_lhs(&self, dot: u32) -> Symbol {
        self.rhs1[dot as usize].unwrap_or(self.lhs[dot as usize])
    }
    fn prediction_row(&self, s: Symbol) -> &BitSlice {
        &self.pred[s.usize()]
    }
    fn num_syms(&self) -> usize {
        self.nsyms
    }
    fn num_gensyms(&self) -> usize {
        self.ngens
    }
    fn num_rules(&self) -> usize {
        self.lhs.len()
    }
    fn start_sym(&self) -> Symbol {
        self.start
    }
    fn externalized_start_sym(&self) -> Symbol {
        self.start
    }
    fn has_trivial_derivation(&self) -> bool {
        self.trivial
    }
    fn nulling(&self, _pos: u32) -> NullingEliminated {
        None
    }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
        (&self.events[0], &self.events[1])
    }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] {
        [&self.trace[0], &self.trace[1], &self.trace[2]]
    }
    fn get_rhs1(&self, dot: u32) -> Option<Symbol> {
        self.rhs1[dot as usize]
    }
    fn rhs1(&self) -> &[Option<Symbol>] {
        &self.rhs1
    }
    fn get_lhs(&self, dot: u32) -> Symbol {
        self.lhs[dot as usize]
    }
    fn external_origin(&self, dot: u32) -> ExternalOrigin {
        ExternalOrigin { id: dot }
    }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] {
        &[]
    }
    fn completions(&self, s: Symbol) -> &[PredictionTransition] {
        &self.completions[s.usize()]
    }
    fn gen_completion(&self, s: Symbol) -> [Option<PredictionTransition>; 2] {
        self.gen[s.usize() - self.nsyms]
    }
    fn to_internal(&self, symbol: Symbol) -> Option<Symbol> {
        Some(symbol)
    }
    fn to_external(&self, symbol: Symbol) -> Symbol {
        symbol
    }
    fn dot_before_eof(&self) -> u32 {
        self.dot_before_eof
    }
    fn useless_symbol(&self) -> Symbol {
        self.start
    }
    fn forest_info(&self) -> ForestInfo {
        self.forest_info.clone()
    }
}

/// `{"syms": n, "rules": [{"lhs", "rhs", "hidden"?}], "root", "events"?: [[rule, pos, event, distance]]}`
pub fn cfg_from_json(v: &Value) -> Cfg {
    let mut cfg = Cfg::new();
    for _ in 0..u(&v["syms"]) {
        let [_] = cfg.sym();
    }
    if let Some(names) = v["names"].as_array() {
        let names = names
            .iter()
            .map(|n| n.as_str().map(|s| s.into()))
            .collect();
        cfg.sym_source_mut().set_names(names);
    }
    for r in v["rules"].as_array().unwrap() {
        let rhs: Vec<Symbol> = us(&r["rhs"]).into_iter().map(sym).collect();
        let b = cfg.rule(sym(u(&r["lhs"])));
        if r["hidden"].as_bool().unwrap_or(false) {
            b.rhs_null_origin(&rhs);
        } else {
            b.rhs(&rhs);
        }
    }
    for e in v["events"].as_array().unwrap_or(&vec![]) {
        cfg.set_event(u(&e[0]), u(&e[1]), u(&e[2]) as u32, u(&e[3]) as u32);
    }
    cfg.set_roots([sym(u(&v["root"]))]);
    cfg
}

pub fn default_grammar(v: &Value) -> DefaultGrammar {
    DefaultGrammar::from_grammar(cfg_from_json(v))
}

/// Everything the `Grammar` interface answers, as one JSON object.
pub fn dump<G: Grammar>(g: &G, externals: usize) -> Value {
    let n = g.num_syms();
    let rules = g.num_rules();
    let s = |x: Symbol| x.usize();
    let bits = |b: &BitSlice| -> Vec<usize> { (0..n).filter(|&i| b[i]).collect() };
    let tr = |t: &PredictionTransition| json!({"symbol": s(t.symbol), "dot": t.dot, "unary": t.is_unary});
    let (ep, ed) = g.events();
    let ev = |e: &[EventAndDistance]| -> Vec<Value> { e.iter().map(|(a, b)| json!([id(a.id), id(b.distance)])).collect() };
    let td = |e: &[ExternalDottedRule]| -> Vec<Value> { e.iter().map(|a| json!([id(a.id), id(a.pos)])).collect() };
    let [t0, t1, t2] = g.trace();
    let fi = g.forest_info();
    let total = n + g.num_gensyms();
    let null = |x: NullingEliminated| match x {
        None => json!([]),
        Some((y, right)) => json!([s(y), right as u32]),
    };
    json!({
        "nsyms": n, "ngens": g.num_gensyms(), "nrules": rules,
        "start": s(g.start_sym()), "sof": s(g.sof()), "eof": s(g.eof()),
        "ext_start": s(g.externalized_start_sym()),
        "trivial": g.has_trivial_derivation(), "dot_before_eof": g.dot_before_eof(),
        "lhs": (0..rules).map(|d| s(g.get_lhs(d as u32))).collect::<Vec<_>>(),
        "rhs1": (0..rules).map(|d| g.get_rhs1(d as u32).map_or(-1, |x| s(x) as i64)).collect::<Vec<_>>(),
        "rhs1_all": g.rhs1().iter().map(|d| d.map_or(-1, |x| s(x) as i64)).collect::<Vec<_>>(),
        "rhs1_or_lhs": (0..rules).map(|d| s(g.rhs1_or_lhs(d as u32))).collect::<Vec<_>>(),
        "pred": (0..n).map(|i| bits(g.prediction_row(sym(i)))).collect::<Vec<_>>(),
        "lhs_lr": (0..n).map(|i| bits(g.lhs_lr_set(sym(i)))).collect::<Vec<_>>(),
        // only asked for symbols that are not generated
        "lookahead": (0..rules).map(|d| if s(g.rhs1_or_lhs(d as u32)) < n { bits(g.lookahead_set(d as u32)) } else { vec![] }).collect::<Vec<_>>(),
        "completions": (0..n).map(|i| g.completions(sym(i)).iter().map(tr).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "gen": (n..total).map(|i| g.gen_completion(sym(i)).iter().map(|o| o.as_ref().map_or(json!([]), |t| json!([tr(t)]))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "events": {"predict": ev(ep), "dot1": ev(ed)},
        "trace": {"predict": td(t0), "dot1": td(t1), "dot2": td(t2)},
        "origin": (0..rules).map(|d| id(g.external_origin(d as u32).id)).collect::<Vec<_>>(),
        "nulling": (0..rules).map(|d| null(g.nulling(d as u32))).collect::<Vec<_>>(),
        "nulling_rules": g.eliminated_nulling_intermediate().iter().map(|r| r.iter().map(|&x| s(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "to_internal": (0..externals).map(|i| g.to_internal(sym(i)).map_or(-1, |x| s(x) as i64)).collect::<Vec<_>>(),
        "to_external": (0..total).map(|i| s(g.to_external(sym(i)))).collect::<Vec<_>>(),
        "useless": s(g.useless_symbol()),
        "info": {
            "eval": fi.eval.iter().map(|o| id(o.id)).collect::<Vec<_>>(),
            "nulling_rules": fi.nulling_intermediate_rules.iter().map(|r| r.iter().map(|&x| s(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "nulling": fi.nulling_eliminated.iter().map(|&x| null(x)).collect::<Vec<_>>(),
            "sof": s(fi.sof), "eof": s(fi.eof), "start": s(fi.start),
        },
    })
}
