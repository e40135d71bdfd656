//! Stand-in for `cfg-load`: only the loaded form of a grammar.
pub mod advanced {
    use cfg::{Cfg, Symbol};
    use std::collections::BTreeMap;

    /// Maps characters to the terminals whose class contains them.
    #[derive(Clone, Debug, Default)]
    pub struct LexerMap {
        classes: Vec<(char, char, Symbol)>,
        map: BTreeMap<char, Vec<Symbol>>,
    }
    impl LexerMap {
        pub fn insert(&mut self, lo: char, hi: char, sym: Symbol) {
            self.classes.push((lo, hi, sym));
        }
        /// Must be called before `get`.
        pub fn compute(&mut self) {
            self.map.clear();
            for &(lo, hi, s) in &self.classes {
                for c in lo..=hi {
                    let v = self.map.entry(c).or_default();
                    if !v.contains(&s) {
                        v.push(s);
                    }
                }
            }
        }
        pub fn get(&self, ch: char) -> &[Symbol] {
            self.map.get(&ch).map(|v| &v[..]).unwrap_or(&[])
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct AdvancedGrammar {
        pub cfg: Cfg,
        pub lexer_map: LexerMap,
    }
}
