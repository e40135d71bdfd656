//! Stand-in for the `cfg` crate (context-free grammars; not available
//! offline).  It implements the grammar transformations gearley asks of it in
//! the most direct way, so that what is verified is gearley's own code.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub use cfg_symbol as symbol;
pub use cfg_symbol::{Symbol, SymbolName, SymbolSource};

pub mod history {
    pub use cfg_history::earley;
    use cfg_history::earley::*;

    /// What is known about where a rule comes from.
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct History {
        pub origin: ExternalOrigin,
        pub nullable: NullingEliminated,
        /// One entry per dot position.
        pub dots: Vec<RuleDot>,
    }
    impl History {
        pub fn null(len: usize) -> Self {
            History {
                origin: ExternalOrigin::null(),
                nullable: None,
                dots: vec![RuleDot::null(); len + 1],
            }
        }
        pub fn origin(&self) -> ExternalOrigin {
            self.origin
        }
        pub fn nullable(&self) -> NullingEliminated {
            self.nullable
        }
        pub fn dot(&self, pos: usize) -> RuleDot {
            self.dots.get(pos).copied().unwrap_or_else(RuleDot::null)
        }
    }
}
use history::earley::*;
use history::History;

#[derive(Clone, Debug)]
pub struct CfgRule {
    pub lhs: Symbol,
    pub rhs: Vec<Symbol>,
    pub history: History,
}
impl CfgRule {
    pub fn lhs(&self) -> Symbol {
        self.lhs
    }
    pub fn rhs(&self) -> &[Symbol] {
        &self.rhs
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct WrappedRoot {
    pub inner_root: Symbol,
    pub root: Symbol,
    pub start_of_input: Symbol,
    pub end_of_input: Symbol,
}

#[derive(Copy, Clone, Debug)]
pub struct Dot {
    pub lhs: Symbol,
    pub predot: Option<Symbol>,
    pub postdot: Option<Symbol>,
    pub earley: Option<RuleDot>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    sym_source: SymbolSource,
    rules: Vec<CfgRule>,
    roots: Vec<Symbol>,
    wrapped_roots: Vec<WrappedRoot>,
    next_origin: u32,
    // Symbols that only survive in the nulling part of the grammar.
    nulling_syms: BTreeSet<Symbol>,
}

pub struct RuleBuilder<'a> {
    cfg: &'a mut Cfg,
    lhs: Symbol,
}
impl<'a> RuleBuilder<'a> {
    pub fn rhs<A: AsRef<[Symbol]>>(self, rhs: A) -> Self {
        self.cfg.add_rule(self.lhs, rhs.as_ref());
        self
    }
    /// A rule whose history is null: invisible in the parse result.
    pub fn rhs_null_origin<A: AsRef<[Symbol]>>(self, rhs: A) -> Self {
        let rhs = rhs.as_ref();
        self.cfg.rules.push(CfgRule {
            lhs: self.lhs,
            rhs: rhs.to_vec(),
            history: History::null(rhs.len()),
        });
        self
    }
    pub fn rule(self, lhs: Symbol) -> RuleBuilder<'a> {
        RuleBuilder { cfg: self.cfg, lhs }
    }
}

impl Cfg {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_sym_source(sym_source: SymbolSource) -> Self {
        Cfg {
            sym_source,
            ..Self::default()
        }
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        self.sym_source.sym()
    }
    pub fn sym_source(&self) -> &SymbolSource {
        &self.sym_source
    }
    pub fn sym_source_mut(&mut self) -> &mut SymbolSource {
        &mut self.sym_source
    }
    pub fn num_syms(&self) -> usize {
        self.sym_source.num_syms()
    }
    pub fn rule(&mut self, lhs: Symbol) -> RuleBuilder<'_> {
        RuleBuilder { cfg: self, lhs }
    }
    fn add_rule(&mut self, lhs: Symbol, rhs: &[Symbol]) -> usize {
        let id = self.next_origin;
        self.next_origin += 1;
        self.add_rule_with_origin(lhs, rhs, id)
    }
    fn add_rule_with_origin(&mut self, lhs: Symbol, rhs: &[Symbol], id: u32) -> usize {
        let dots = (0..=rhs.len())
            .map(|pos| RuleDot {
                trace: ExternalDottedRule {
                    id,
                    pos: pos as u32,
                },
                ..RuleDot::null()
            })
            .collect();
        self.rules.push(CfgRule {
            lhs,
            rhs: rhs.to_vec(),
            history: History {
                origin: ExternalOrigin { id },
                nullable: None,
                dots,
            },
        });
        self.rules.len() - 1
    }
    /// Attaches an event to the dot position `pos` of the rule with index `rule`.
    pub fn set_event(&mut self, rule: usize, pos: usize, event: u32, distance: u32) {
        let d = &mut self.rules[rule].history.dots[pos];
        d.event = EventId { id: event };
        d.distance = MinimalDistance { distance };
    }
    pub fn set_roots<A: AsRef<[Symbol]>>(&mut self, roots: A) {
        self.roots = roots.as_ref().to_vec();
    }
    pub fn roots(&self) -> &[Symbol] {
        &self.roots
    }
    pub fn wrapped_roots(&self) -> &[WrappedRoot] {
        &self.wrapped_roots
    }
    pub fn rules(&self) -> impl DoubleEndedIterator<Item = &CfgRule> + ExactSizeIterator + Clone + '_ {
        self.rules.iter()
    }
    pub fn is_empty(&self) -> bool {
        self.rules.is_empty()
    }
    pub fn sort_by<F: FnMut(&CfgRule, &CfgRule) -> std::cmp::Ordering>(&mut self, f: F) {
        self.rules.sort_by(f);
    }
    pub fn sort(&mut self) {
        self.rules.sort_by(|a, b| (a.lhs, &a.rhs).cmp(&(b.lhs, &b.rhs)));
    }
    pub fn column(&self, col: usize) -> impl Iterator<Item = Dot> + '_ {
        self.rules.iter().map(move |r| Dot {
            lhs: r.lhs,
            predot: if col == 0 {
                Some(r.lhs)
            } else {
                r.rhs.get(col - 1).copied()
            },
            postdot: r.rhs.get(col).copied(),
            earley: Some(r.history.dot(col)),
        })
    }
    pub fn stringify_to_bnf(&self) -> String {
        let mut s = String::new();
        for r in &self.rules {
            let _ = write!(s, "{} ::=", r.lhs.usize());
            for x in &r.rhs {
                let _ = write!(s, " {}", x.usize());
            }
            let _ = writeln!(s, ";");
        }
        s
    }

    fn productive(&self) -> BTreeSet<Symbol> {
        let lhs: BTreeSet<Symbol> = self.rules.iter().map(|r| r.lhs).collect();
        let mut p: BTreeSet<Symbol> = self
            .sym_source
            .generate()
            .filter(|s| !lhs.contains(s))
            .collect();
        loop {
            let n = p.len();
            for r in &self.rules {
                if r.rhs.iter().all(|s| p.contains(s)) {
                    p.insert(r.lhs);
                }
            }
            if p.len() == n {
                return p;
            }
        }
    }
    /// Drops rules that are unproductive or unreachable.
    pub fn make_proper(&mut self) -> bool {
        let n = self.rules.len();
        let p = self.productive();
        self.rules
            .retain(|r| p.contains(&r.lhs) && r.rhs.iter().all(|s| p.contains(s)));
        let mut reach: BTreeSet<Symbol> = self.roots.iter().copied().collect();
        loop {
            let m = reach.len();
            for r in &self.rules {
                if reach.contains(&r.lhs) {
                    reach.extend(r.rhs.iter().copied());
                }
            }
            if reach.len() == m {
                break;
            }
        }
        self.rules.retain(|r| reach.contains(&r.lhs));
        n == self.rules.len()
    }
    /// `root ::= start_of_input inner_root end_of_input`.
    pub fn wrap_input(&mut self) {
        let roots = std::mem::take(&mut self.roots);
        for inner_root in roots {
            let [root, start_of_input, end_of_input] = self.sym();
            self.rules.push(CfgRule {
                lhs: root,
                rhs: vec![start_of_input, inner_root, end_of_input],
                history: History::null(3),
            });
            self.roots.push(root);
            self.wrapped_roots.push(WrappedRoot {
                inner_root,
                root,
                start_of_input,
                end_of_input,
            });
        }
    }
    fn binarize(&mut self) {
        let rules = std::mem::take(&mut self.rules);
        for r in rules {
            if r.rhs.len() <= 2 {
                self.rules.push(r);
                continue;
            }
            let mut left = r.rhs[0];
            let mut before = 1;
            for i in 1..r.rhs.len() {
                let last = i + 1 == r.rhs.len();
                let lhs = if last {
                    r.lhs
                } else {
                    self.sym_source.next_sym(None)
                };
                self.rules.push(CfgRule {
                    lhs,
                    rhs: vec![left, r.rhs[i]],
                    history: History {
                        origin: if last {
                            r.history.origin
                        } else {
                            ExternalOrigin::null()
                        },
                        nullable: r.history.nullable,
                        dots: vec![
                            r.history.dot(0),
                            r.history.dot(before),
                            r.history.dot(before + 1),
                        ],
                    },
                });
                left = lhs;
                before += 1;
            }
        }
    }
    /// Rewrites the grammar such that right-hand sides have one or two
    /// symbols; returns the rules that derive the empty string.
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg {
        self.binarize();
        let mut nullable = BTreeSet::new();
        loop {
            let n = nullable.len();
            for r in &self.rules {
                if r.rhs.iter().all(|s| nullable.contains(s)) {
                    nullable.insert(r.lhs);
                }
            }
            if n == nullable.len() {
                break;
            }
        }
        let mut nulling = Cfg {
            sym_source: self.sym_source.clone(),
            roots: self.roots.clone(),
            wrapped_roots: self.wrapped_roots.clone(),
            ..Default::default()
        };
        let rules = std::mem::take(&mut self.rules);
        for r in rules {
            if r.rhs.iter().all(|s| nullable.contains(s)) {
                nulling.rules.push(r.clone());
            }
            if r.rhs.is_empty() {
                continue;
            }
            if r.rhs.len() == 2 {
                for (gone, kept) in [(0usize, 1usize), (1, 0)] {
                    if nullable.contains(&r.rhs[gone]) {
                        let mut h = r.history.clone();
                        h.nullable = Some((r.rhs[gone], gone == 1));
                        // the dots around the symbol that stays
                        h.dots = vec![h.dots[0], h.dots[2], h.dots[2]];
                        self.rules.push(CfgRule {
                            lhs: r.lhs,
                            rhs: vec![r.rhs[kept]],
                            history: h,
                        });
                    }
                }
            }
            self.rules.push(r);
        }
        // Symbols that derive nothing but the empty string are gone now.
        let all_lhs: BTreeSet<Symbol> = self
            .rules
            .iter()
            .map(|r| r.lhs)
            .chain(nulling.rules.iter().map(|r| r.lhs))
            .collect();
        let mut p: BTreeSet<Symbol> = self
            .sym_source
            .generate()
            .filter(|s| !all_lhs.contains(s))
            .collect();
        loop {
            let n = p.len();
            for r in &self.rules {
                if r.rhs.iter().all(|s| p.contains(s)) {
                    p.insert(r.lhs);
                }
            }
            if n == p.len() {
                break;
            }
        }
        self.rules
            .retain(|r| p.contains(&r.lhs) && r.rhs.iter().all(|s| p.contains(s)));
        let mut reach: BTreeSet<Symbol> = self.roots.iter().copied().collect();
        loop {
            let m = reach.len();
            for r in &self.rules {
                if reach.contains(&r.lhs) {
                    reach.extend(r.rhs.iter().copied());
                }
            }
            if reach.len() == m {
                break;
            }
        }
        self.rules.retain(|r| reach.contains(&r.lhs));
        for r in &nulling.rules {
            self.nulling_syms.insert(r.lhs);
            self.nulling_syms.extend(r.rhs.iter().copied());
        }
        nulling
    }

    pub fn map_symbols<F: Fn(Symbol) -> Symbol>(&mut self, f: F) {
        for r in &mut self.rules {
            r.lhs = f(r.lhs);
            for s in &mut r.rhs {
                *s = f(*s);
            }
            if let Some((s, _)) = &mut r.history.nullable {
                *s = f(*s);
            }
        }
        for s in &mut self.roots {
            *s = f(*s);
        }
        for w in &mut self.wrapped_roots {
            w.inner_root = f(w.inner_root);
            w.root = f(w.root);
            w.start_of_input = f(w.start_of_input);
            w.end_of_input = f(w.end_of_input);
        }
        self.nulling_syms = self.nulling_syms.iter().map(|&s| f(s)).collect();
    }
}

/// A set of symbols.
#[derive(Clone, Debug)]
pub struct SymbolBitSet {
    bits: bit_vec::BitVec,
}
impl SymbolBitSet {
    pub fn new() -> Self {
        SymbolBitSet {
            bits: bit_vec::BitVec::new(),
        }
    }
    pub fn from_elem(cfg: &Cfg, v: bool) -> Self {
        SymbolBitSet {
            bits: bit_vec::BitVec::from_elem(cfg.num_syms(), v),
        }
    }
    pub fn set(&mut self, s: Symbol, v: bool) {
        self.bits.set(s.usize(), v);
    }
    pub fn has(&self, s: Symbol) -> bool {
        self.bits[s.usize()]
    }
    pub fn negate(&mut self) {
        self.bits.negate();
    }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ {
        SymbolSource::generate_fresh()
            .zip(self.bits.iter())
            .filter_map(|(s, b)| if b { Some(s) } else { None })
    }
    pub fn bit_vec(&self) -> &bit_vec::BitVec {
        &self.bits
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
}
impl Default for SymbolBitSet {
    fn default() -> Self {
        Self::new()
    }
}
impl std::ops::Index<Symbol> for SymbolBitSet {
    type Output = bool;
    fn index(&self, s: Symbol) -> &bool {
        &self.bits[s.usize()]
    }
}

pub mod classify {
    use super::*;
    pub trait CfgClassifyExt {
        fn terminal_symbols(&self) -> SymbolBitSet;
        fn lhs_symbols(&self) -> SymbolBitSet;
    }
    impl CfgClassifyExt for Cfg {
        fn terminal_symbols(&self) -> SymbolBitSet {
            let mut s = self.lhs_symbols();
            s.negate();
            s
        }
        fn lhs_symbols(&self) -> SymbolBitSet {
            let mut s = SymbolBitSet::from_elem(self, false);
            for r in self.rules() {
                s.set(r.lhs, true);
            }
            s
        }
    }
}

pub mod predict_sets {
    use super::*;
    pub type PerSymbolSets = BTreeMap<Symbol, BTreeSet<Symbol>>;
    pub trait PredictSets {
        fn predict_sets(&self) -> &PerSymbolSets;
    }
    /// Terminals that may begin a symbol (grammars without nulling rules).
    #[derive(Debug)]
    pub struct FirstSets {
        sets: PerSymbolSets,
    }
    /// Terminals that may come after a symbol.
    #[derive(Debug)]
    pub struct FollowSets {
        sets: PerSymbolSets,
    }
    fn get(sets: &PerSymbolSets, terminal: bool, s: Symbol) -> BTreeSet<Symbol> {
        let mut r = sets.get(&s).cloned().unwrap_or_default();
        if terminal {
            r.insert(s);
        }
        r
    }
    impl FirstSets {
        pub fn new(grammar: &Cfg) -> Self {
            let nonterm: BTreeSet<Symbol> = grammar.rules().map(|r| r.lhs).collect();
            let mut sets = PerSymbolSets::new();
            loop {
                let before: usize = sets.values().map(|s| s.len()).sum();
                for r in grammar.rules() {
                    if let Some(&s) = r.rhs.first() {
                        let f = get(&sets, !nonterm.contains(&s), s);
                        sets.entry(r.lhs).or_default().extend(f);
                    }
                }
                if before == sets.values().map(|s| s.len()).sum::<usize>() {
                    return FirstSets { sets };
                }
            }
        }
    }
    impl PredictSets for FirstSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.sets
        }
    }
    impl FollowSets {
        pub fn new(grammar: &Cfg, first: &PerSymbolSets) -> Self {
            let nonterm: BTreeSet<Symbol> = grammar.rules().map(|r| r.lhs).collect();
            let mut sets = PerSymbolSets::new();
            loop {
                let before: usize = sets.values().map(|s| s.len()).sum();
                for r in grammar.rules() {
                    for (i, &s) in r.rhs.iter().enumerate() {
                        let add = match r.rhs.get(i + 1) {
                            Some(&n) => get(first, !nonterm.contains(&n), n),
                            None => get(&sets, false, r.lhs),
                        };
                        sets.entry(s).or_default().extend(add);
                    }
                }
                if before == sets.values().map(|s| s.len()).sum::<usize>() {
                    return FollowSets { sets };
                }
            }
        }
    }
    impl PredictSets for FollowSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.sets
        }
    }
}

pub mod symbol_bit_matrix {
    use super::*;
    use bit_matrix::BitMatrix;
    use cfg_symbol::intern::Mapping;
    use std::cmp::Ordering;
    use std::ops::{Deref, DerefMut, Index};

    #[derive(Clone, Debug)]
    pub struct CfgSymbolBitMatrix {
        matrix: BitMatrix,
    }
    impl CfgSymbolBitMatrix {
        pub fn new(cfg: &Cfg) -> Self {
            CfgSymbolBitMatrix {
                matrix: BitMatrix::new(cfg.num_syms(), cfg.num_syms()),
            }
        }
    }
    impl Deref for CfgSymbolBitMatrix {
        type Target = BitMatrix;
        fn deref(&self) -> &BitMatrix {
            &self.matrix
        }
    }
    impl DerefMut for CfgSymbolBitMatrix {
        fn deref_mut(&mut self) -> &mut BitMatrix {
            &mut self.matrix
        }
    }
    impl Index<(Symbol, Symbol)> for CfgSymbolBitMatrix {
        type Output = bool;
        fn index(&self, (a, b): (Symbol, Symbol)) -> &bool {
            &self.matrix[(a.usize(), b.usize())]
        }
    }
    pub trait CfgSymbolBitMatrixExt {
        fn empty_matrix(&self) -> CfgSymbolBitMatrix;
    }
    impl CfgSymbolBitMatrixExt for Cfg {
        fn empty_matrix(&self) -> CfgSymbolBitMatrix {
            CfgSymbolBitMatrix::new(self)
        }
    }

    /// Renumbers symbols.
    pub struct Remap<'a> {
        cfg: &'a mut Cfg,
        mapping: Mapping,
    }
    impl<'a> Remap<'a> {
        pub fn new(cfg: &'a mut Cfg) -> Self {
            let n = cfg.num_syms();
            Remap {
                cfg,
                mapping: Mapping {
                    to_internal: SymbolSource::generate_fresh().take(n).map(Some).collect(),
                    to_external: SymbolSource::generate_fresh().take(n).collect(),
                },
            }
        }
        fn apply(&mut self, order: Vec<Symbol>) {
            // `order[new] = old`
            let n = self.cfg.num_syms();
            let mut to_new: Vec<Option<Symbol>> = vec![None; n];
            for (new, old) in order.iter().enumerate() {
                to_new[old.usize()] = Some(Symbol::from_index(new));
            }
            let names = self.cfg.sym_source().names();
            self.cfg
                .sym_source
                .set_names(order.iter().map(|s| names[s.usize()].clone()).collect());
            // A symbol that is dropped occurs nowhere.
            self.cfg.map_symbols(|s| to_new[s.usize()].expect("dropped symbol is in use"));
            self.mapping.to_external = order
                .iter()
                .map(|s| self.mapping.to_external[s.usize()])
                .collect();
            for s in &mut self.mapping.to_internal {
                *s = s.and_then(|s| to_new[s.usize()]);
            }
        }
        /// Puts symbols in an order in which `a` comes before `b` whenever
        /// `order(a, b)` is `Less`, and which is otherwise the previous order.
        pub fn reorder_symbols<F>(&mut self, order: F)
        where
            F: Fn(Symbol, Symbol) -> Ordering,
        {
            let mut left: Vec<Symbol> = self.cfg.sym_source.generate().collect();
            let mut result = vec![];
            while !left.is_empty() {
                let pos = left
                    .iter()
                    .position(|&s| {
                        left.iter()
                            .all(|&t| s == t || order(t, s) != Ordering::Less)
                    })
                    .unwrap_or(0);
                result.push(left.remove(pos));
            }
            self.apply(result);
        }
        pub fn remove_unused_symbols(&mut self) {
            let mut used: BTreeSet<Symbol> = self.cfg.nulling_syms.clone();
            for r in self.cfg.rules() {
                used.insert(r.lhs);
                used.extend(r.rhs.iter().copied());
                used.extend(r.history.nullable().map(|(s, _)| s));
            }
            for w in self.cfg.wrapped_roots() {
                used.extend([w.inner_root, w.root, w.start_of_input, w.end_of_input]);
            }
            used.extend(self.cfg.roots().iter().copied());
            let order = self
                .cfg
                .sym_source
                .generate()
                .filter(|s| used.contains(s))
                .collect();
            self.apply(order);
        }
        pub fn get_mapping(self) -> Mapping {
            self.mapping
        }
    }
}

pub mod sequence {
    use super::*;
    use std::ops::{Bound, RangeBounds};

    #[derive(Copy, Clone, Debug)]
    pub enum Separator {
        Trailing(Symbol),
        Proper(Symbol),
        Liberal(Symbol),
        Null,
    }
    pub struct SequenceBuilder<'a> {
        cfg: &'a mut Cfg,
        lhs: Symbol,
        min: u32,
        max: Option<u32>,
        sep: Separator,
    }
    pub trait CfgSequenceExt {
        fn sequence(&mut self, lhs: Symbol) -> SequenceBuilder<'_>;
    }
    impl CfgSequenceExt for Cfg {
        fn sequence(&mut self, lhs: Symbol) -> SequenceBuilder<'_> {
            SequenceBuilder {
                cfg: self,
                lhs,
                min: 0,
                max: None,
                sep: Separator::Null,
            }
        }
    }
    impl<'a> SequenceBuilder<'a> {
        pub fn separator(mut self, sep: Separator) -> Self {
            self.sep = sep;
            self
        }
        pub fn inclusive(mut self, min: u32, max: Option<u32>) -> Self {
            self.min = min;
            self.max = max;
            self
        }
        pub fn range(mut self, r: impl RangeBounds<u32>) -> Self {
            self.min = match r.start_bound() {
                Bound::Included(&n) => n,
                Bound::Excluded(&n) => n + 1,
                Bound::Unbounded => 0,
            };
            self.max = match r.end_bound() {
                Bound::Included(&n) => Some(n),
                Bound::Excluded(&n) => Some(n - 1),
                Bound::Unbounded => None,
            };
            self
        }
        /// Adds the rules. Intermediate rules have a null history, so that
        /// the result is one product with all elements and separators.
        pub fn rhs(self, elem: Symbol) -> Self {
            let id = self.cfg.next_origin;
            self.cfg.next_origin += 1;
            let (between, after) = match self.sep {
                Separator::Trailing(s) => (Some(s), vec![Some(s)]),
                Separator::Proper(s) => (Some(s), vec![None]),
                Separator::Liberal(s) => (Some(s), vec![None, Some(s)]),
                Separator::Null => (None, vec![None]),
            };
            let seq = |n: u32, tail: Option<Symbol>| {
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        v.extend(between);
                    }
                    v.push(elem);
                }
                if n > 0 {
                    v.extend(tail);
                }
                v
            };
            if self.min == 0 {
                self.cfg.add_rule_with_origin(self.lhs, &[], id);
            }
            let min = self.min.max(1);
            match self.max {
                Some(max) => {
                    for n in min..=max {
                        for &tail in &after {
                            let v = seq(n, tail);
                            self.cfg.add_rule_with_origin(self.lhs, &v, id);
                        }
                    }
                }
                None => {
                    let [list] = self.cfg.sym();
                    let v = seq(min, None);
                    self.cfg.rule(list).rhs_null_origin(&v);
                    let mut w = vec![list];
                    w.extend(between);
                    w.push(elem);
                    self.cfg.rule(list).rhs_null_origin(&w);
                    for &tail in &after {
                        let mut v = vec![list];
                        v.extend(tail);
                        self.cfg.add_rule_with_origin(self.lhs, &v, id);
                    }
                }
            }
            self
        }
    }
}
