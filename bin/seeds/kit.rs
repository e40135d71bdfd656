//! Short-hands for the demonstrations.
#![allow(dead_code)]
use cfg::{Cfg, Symbol, SymbolSource};
pub use gearley_default_grammar::DefaultGrammar;
pub use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::Evaluate;
pub use gearley_forest::{Forest, NullForest};
pub use gearley_grammar::{ForestInfo, Grammar};
pub use gearley_recognizer::lookahead::Lookahead;
pub use gearley_recognizer::Recognizer;

pub fn sym(i: usize) -> Symbol {
    <SymbolSource>::generate_fresh().nth(i).unwrap()
}
pub fn cfg(syms: usize, root: usize, rules: &[(usize, &[usize])]) -> Cfg {
    let mut cfg = Cfg::new();
    for _ in 0..syms {
        let [_] = cfg.sym();
    }
    for (l, r) in rules {
        let rhs: Vec<Symbol> = r.iter().map(|&x| sym(x)).collect();
        cfg.rule(sym(*l)).rhs(&rhs);
    }
    cfg.set_roots([sym(root)]);
    cfg
}
pub fn grammar(syms: usize, root: usize, rules: &[(usize, &[usize])]) -> DefaultGrammar {
    DefaultGrammar::from_grammar(cfg(syms, root, rules))
}
pub fn start<F: Forest>(r: &mut Recognizer<&DefaultGrammar, F>) -> bool {
    let sof = r.grammar().sof();
    r.begin_earleme();
    r.scan(sof, 0);
    r.end_earleme()
}
pub fn token<F: Forest>(r: &mut Recognizer<&DefaultGrammar, F>, t: usize, value: u32) -> bool {
    let s = r.grammar().to_internal(sym(t)).unwrap();
    r.begin_earleme();
    r.scan(s, value);
    r.end_earleme()
}
/// Reads all tokens without lookahead; what was accepted after each.
pub fn accepts(g: &DefaultGrammar, word: &[usize]) -> Vec<bool> {
    let mut r = Recognizer::new(g);
    start(&mut r);
    let mut out = vec![r.is_finished()];
    for &t in word {
        if !token(&mut r, t, 0) {
            break;
        }
        out.push(r.is_finished());
    }
    out
}
pub struct Text<'a>(pub &'a DefaultGrammar);
impl Evaluate for Text<'_> {
    type Elem = String;
    fn leaf(&self, terminal: Symbol, values: u32) -> String {
        format!("{}:{}", self.0.to_external(terminal).usize(), values)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a String>) -> String {
        format!("({})", std::iter::once(action.to_string()).chain(args.cloned()).collect::<Vec<_>>().join(" "))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<String>) {
        results.push(format!("~{}", self.0.to_external(symbol).usize()));
    }
}
macro_rules! trees {
    ($name:ident, $bocage:ty) => {
        /// All parse trees, sorted.
        pub fn $name(g: &DefaultGrammar, word: &[usize], values: &[u32]) -> Vec<String> {
            let mut r = Recognizer::with_forest(g, <$bocage>::new(g));
            start(&mut r);
            for (i, &t) in word.iter().enumerate() {
                if !token(&mut r, t, values.get(i).copied().unwrap_or(i as u32)) {
                    return vec![];
                }
            }
            let node: NodeHandle = match r.finished_node() {
                Some(n) => n,
                None => return vec![],
            };
            let mut out = r.into_forest().evaluate(Text(g), node);
            out.sort();
            out
        }
    };
}
trees!(simple, simple_bocage::Bocage);
trees!(compact, compact_bocage::Bocage);
