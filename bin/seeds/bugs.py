"""Planted bugs: (id, property, needs, breaks, [(file, old, new)], demonstration)."""
VEC, CART = "gearley-vec2d/src/lib.rs", "gearley-utils/src/cartesian_product.rs"
REC, HEAP = "gearley-recognizer/src/recognizer.rs", "gearley-recognizer/src/binary_heap.rs"
EVENT, PREDICT, PERF = ("gearley-recognizer/src/" + x for x in ("event.rs", "predict.rs", "perf_hint.rs"))
DG = "gearley-default-grammar/src/lib.rs"
SB, ST = "simple-bocage/src/bocage.rs", "simple-bocage/src/traverse.rs"
CB, CT, CG = "compact-bocage/src/bocage.rs", "compact-bocage/src/traverse.rs", "compact-bocage/src/graph.rs"
PARSE = "gearley-utils/src/parse.rs"

BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


VUSE = "use gearley_vec2d::Vec2d;\n"
bug("v02-truncate-empty-tail", "V02", "truncating sets while the set in progress is empty",
    "items of the dropped sets appear in the set in progress",
    [(VEC, '''        self.chart
            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);
        self.chart
            .truncate(self.chart.len() + new_medial_start as usize - self.indices.last().unwrap());
        self.indices.truncate(new_len + 1);''',
      '''        let last = *self.indices.last().unwrap();
        if last < self.chart.len() {
            self.chart.copy_within(last.., new_medial_start);
            self.chart.truncate(self.chart.len() + new_medial_start - last);
        }
        self.indices.truncate(new_len + 1);''')],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.extend(vec![vec![1], vec![2, 3], vec![4]]);
    v.truncate(1);
    assert_eq!(v.last(), &[] as &[i32]);
    assert_eq!(&v[0], &[1]);
}''')
bug("v03-clear-without-items", "V03", "clearing a vector whose sets are all empty",
    "the empty sets are still there after clear",
    [(VEC, '''        self.chart.clear();
        // Indices reset to [0, 0].
        self.indices.clear();
        self.indices.push(0);''',
      '''        if let Some(first) = self.indices.iter().position(|&i| i != 0) {
            self.chart.clear();
            // Indices reset to [0, 0].
            self.indices.truncate(first.min(1));
        }''')],
    VUSE + '''fn main() {
    let mut v = Vec2d::<u8>::new();
    v.next_set();
    v.next_set();
    v.clear();
    assert_eq!(v.len(), 1);
}''')
bug("v04-clone-drops-open-set", "V04", "cloning while the set in progress has items",
    "the copy lacks the items of the set in progress",
    [(VEC, "#[derive(Clone, Debug)]\npub struct Vec2d<I> {\n    chart: Vec<I>,\n    indices: Vec<usize>,\n}\n",
      "#[derive(Debug)]\npub struct Vec2d<I> {\n    chart: Vec<I>,\n    indices: Vec<usize>,\n}\n\nimpl<I: Clone> Clone for Vec2d<I> {\n    fn clone(&self) -> Self {\n        let end = *self.indices.last().unwrap();\n        Self {\n            chart: self.chart[..end].to_vec(),\n            indices: self.indices.clone(),\n        }\n    }\n}\n"),
     (VEC, "    #[inline]\n    pub fn last_item(&self) -> Option<&I> {\n        self.chart.last()\n", "    #[inline]\n    pub fn last_item(&self) -> Option<&I> {\n        self.chart[..].last()\n")],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.push_item(1);
    v.next_set();
    v.push_item(2);
    assert_eq!(v.clone().last(), &[2]);
}''')
bug("v01-get-item-of-open-set", "V01", "reading a single item by number when it lies in the set in progress, beyond its first item",
    "get_item finds nothing although the vector has an item of that number",
    [(VEC, "        self.chart.get(index)\n", "        self.chart[..self.indices.last().copied().unwrap_or(0).max(1).min(self.chart.len())].get(index)\n")],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.push_item(1);
    v.push_item(2);
    assert_eq!(v.get_item(0), Some(&1));
    assert_eq!(v.get_item(1), Some(&2));
}''')
bug("c01-one-element-factor", "C01", "a factor with exactly one element",
    "the enumeration never ends: a factor of one element does not carry",
    [(CART, '''            *ptr = &*(*ptr as *const V).offset(1);
            if *ptr as *const _ == self.end {''',
      '''            if self.start.offset(1) != self.end {
                *ptr = &*(*ptr as *const V).offset(1);
            }
            if *ptr as *const _ == self.end {''')],
    '''use cartesian_product::CartesianProduct;
fn main() {
    let mut p = CartesianProduct::new();
    p.push(&[7]);
    p.push(&[1, 2]);
    let mut n = 1;
    while p.advance() {
        n += 1;
        assert!(n <= 2);
    }
    assert_eq!(n, 2);
}''')
bug("c02-clear-keeps-factors", "C02", "using a product again after clear",
    "the factors from before clear are still advanced",
    [(CART, '''        self.ranges.clear();
        self.ptrs.clear();''', '''        let len = self.ptrs.len();
        self.ptrs.clear();
        self.ranges.truncate(len);''')],
    '''use cartesian_product::CartesianProduct;
fn main() {
    let mut p = CartesianProduct::new();
    p.push(&[1, 2, 3]);
    p.clear();
    p.push(&[5, 6]);
    let mut out = vec![*p.as_slice()[0]];
    while out.len() < 9 && p.advance() {
        out.push(*p.as_slice()[0]);
    }
    assert_eq!(out, [5, 6]);
}''')
CUSE = "use cartesian_product::CartesianProduct;\n"
KIT = "mod kit;\nuse kit::*;\n"
# X0 ::= a.. : several rules that end at the same token, in an order that needs the heap
bug("r08-heap-ignores-last-child", "R08", "six or more completions pending at one location in an unlucky order",
    "completions are taken out of order, so that alternatives are split and completed twice",
    [(HEAP, "        while child < end {\n            let right = child + 1;\n            // compare with the greater of the two children\n            if right < end && !(self.heap_get(child)",
      "        while child < end {\n            let right = child + 1;\n            // compare with the greater of the two children\n            if right + 1 < end && !(self.heap_get(child)")],
    KIT + '''use gearley_forest::node_handle::NodeHandle;
#[derive(Default, Debug)]
struct Groups(Vec<(usize, u32)>);
impl Forest for Groups {
    type NodeRef = NodeHandle;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<NodeHandle>) {}
    fn product(&mut self, a: NodeHandle, _: NodeHandle) -> NodeHandle { a }
    fn sum(&mut self, s: cfg::Symbol, o: u32) -> NodeHandle { self.0.push((s.usize(), o)); NodeHandle(0) }
    fn leaf(&mut self, _: cfg::Symbol, _: u32, _: u32) -> NodeHandle { self.0.push((usize::MAX, 0)); NodeHandle(0) }
    fn nulling(&self, _: cfg::Symbol) -> NodeHandle { NodeHandle(0) }
}
fn main() {
    // every pair of locations is completed at every token
    for rules in [
        vec![(0, &[1, 0, 0][..]), (0, &[1, 0]), (0, &[1])],
        vec![(0, &[2, 0, 3][..]), (0, &[2, 3]), (2, &[2, 3]), (2, &[3, 1, 1]), (2, &[1, 1]), (2, &[3]), (3, &[1]), (3, &[2, 3])],
        vec![(0, &[0, 1, 0][..]), (0, &[0, 0, 0]), (0, &[0, 0]), (0, &[1])],
    ] {
    let g = grammar(4, 0, &rules);
    let mut r = Recognizer::with_forest(&g, Groups::default());
    start(&mut r);
    let mut ends = vec![];
    for _ in 0..9 {
        assert!(token(&mut r, 1, 0));
        ends.push(r.is_finished());
    }
    let groups = r.into_forest().0;
    for i in 0..4 {
    let s = match g.to_internal(sym(i)) { Some(x) => x.usize(), None => continue };
    // one group for each symbol and origin, between two tokens
    for part in groups.split(|x| x.0 == usize::MAX) {
        let mut o: Vec<u32> = part.iter().filter(|x| x.0 == s).map(|x| x.1).collect();
        let n = o.len();
        o.sort();
        o.dedup();
        assert_eq!(n, o.len());
    }
    }
    let ends = &ends[4..];
    assert!(ends.iter().all(|&x| x));
    }
}''')
bug("r02-hint-outlives-token", "R02", "a hint set for a token that completes no rule, followed by a token without a hint",
    "the old hint filters the matches of the next token",
    [(REC, '''            completion.complete_entire_sum();
        }
        self.lookahead.clear_hint();''', '''            completion.complete_entire_sum();
            self.lookahead.clear_hint();
        }''')],
    KIT + '''fn main() {
    // S ::= A c, A ::= a b: after a comes b; b completes A
    let g = grammar(5, 0, &[(0, &[1, 4]), (1, &[2, 3])]);
    let mut r = Recognizer::new(&g);
    start(&mut r);
    r.begin_earleme();
    let b = g.to_internal(sym(3)).unwrap();
    r.lookahead().set_hint(b);
    r.scan(g.to_internal(sym(2)).unwrap(), 0);
    assert!(r.end_earleme());
    assert!(token(&mut r, 3, 0));
    assert!(token(&mut r, 4, 0));
    assert!(r.is_finished());
}''')
bug("r04-predictions-beyond-a-block", "R04", "a grammar with more than 32 symbols",
    "a symbol predicts nothing that is numbered in a later block of the bit matrix than itself",
    [(PREDICT, "            for (dst, &src) in self.iter_blocks_mut().zip(source.iter_blocks()) {",
      "            let blocks = sym.usize() / 32 + 1;\n            for (dst, &src) in self.iter_blocks_mut().zip(source.iter_blocks()).take(blocks) {")],
    KIT + '''fn main() {
    // S ::= x0 | ... | x49 with x_i ::= t_i t_i, so that there are symbols beyond the first block
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..50 {
        rules.push((0, vec![1 + i, 1 + i]));
        rules.push((1 + i, vec![51 + i, 51 + i]));
    }
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let g = grammar(101, 0, &rules);
    for i in 0..50 {
        let t = 51 + i;
        assert_eq!(accepts(&g, &[t, t, t, t]).last(), Some(&true));
    }
}''')
bug("r05-search-finds-any", "R05", "several pending items of one location that wait for the same symbol",
    "only some of the items that wait for a completed symbol are advanced",
    [(REC, '''        let set_idx = specific_set.binary_search_by(|ei| {
            (self.grammar.get_rhs1(ei.dot), cmp::Ordering::Greater)
                .cmp(&(Some(sym), cmp::Ordering::Less))
        });''', '''        let set_idx = specific_set.binary_search_by(|ei| {
            self.grammar.get_rhs1(ei.dot).cmp(&Some(sym)).then(cmp::Ordering::Equal)
        });''')],
    KIT + '''fn main() {
    // X_i ::= a b c_i: after a, all of them wait for b
    let g = grammar(14, 0, &[(0, &[1, 6, 8]), (0, &[1, 6, 9]), (0, &[1, 6, 10]), (0, &[1, 6, 11]), (0, &[1, 6, 12]), (0, &[1, 6, 13])]);
    for c in 8..14 {
        assert_eq!(accepts(&g, &[1, 6, c]).last(), Some(&true));
    }
}''')
bug("r06-reset-keeps-completions", "R06", "a reset between scanning a token and ending the location",
    "completions of the abandoned location are carried out in the next parse",
    [(REC, '''        // Remove items.
        self.medial.clear();
        self.complete.clear();''', '''        // Remove items. Completions are all done at the end of a location.
        self.medial.clear();''')],
    KIT + '''fn main() {
    // S ::= | a S
    let g = grammar(2, 0, &[(0, &[]), (0, &[1, 0])]);
    let trees = |leave: bool| {
        let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
        if leave {
            r.begin_earleme();
            r.scan(g.sof(), 0);
            r.reset();
        }
        start(&mut r);
        assert!(r.is_finished());
        let node = r.finished_node().unwrap();
        let t = r.into_forest().evaluate(Text(&g), node);
        t.len()
    };
    assert_eq!(trees(false), 1);
    assert_eq!(trees(true), 1);
}''')
bug("r08-groups-of-two-origins", "R08", "one token that completes the same symbol from two different origins at once",
    "matches over different spans are put into one group",
    [(REC, "            if self.origin == completion.origin && self.lhs_sym == completion_lhs_sym {",
      "            if self.origin >= completion.origin && self.lhs_sym == completion_lhs_sym {")],
    KIT + '''fn main() {
    // S ::= X | a Y, X ::= a a t, Y ::= X | a t -- both X and Y end at t
    let g = grammar(4, 0, &[(0, &[1]), (0, &[2, 1]), (1, &[2, 2, 3]), (1, &[2, 3])]);
    let t = simple(&g, &[2, 2, 3], &[]);
    assert_eq!(t.len(), 2, "{:?}", t);
    assert_eq!(t, ["(0 (2 2:0 2:1 3:2))", "(1 2:0 (3 2:1 3:2))"]);
}''')
bug("r09-skip-one-alternative", "R09", "skipping a group of several alternatives",
    "only the first alternative is skipped, the others are completed",
    [(REC, "        while let Some(_) = self.next_summand() {}", "        self.next_summand();")],
    KIT + '''fn main() {
    // S ::= A | A b, A ::= a a | B, B ::= a a
    let g = grammar(4, 0, &[(0, &[1]), (1, &[2, 2]), (1, &[3, 2]), (3, &[2])]);
    let mut r = Recognizer::new(&g);
    start(&mut r);
    assert!(token(&mut r, 2, 0));
    r.begin_earleme();
    r.scan(g.to_internal(sym(2)).unwrap(), 0);
    let a = g.to_internal(sym(1)).unwrap();
    let mut groups = 0;
    while let Some(mut group) = r.next_sum() {
        if group.symbol() == a {
            groups += 1;
            group.skip_entire_sum();
        } else {
            group.complete_entire_sum();
        }
    }
    assert_eq!(groups, 1);
}''')
bug("r10-origin-of-last-item", "R10", "pending items of different origins where the greatest origin is not that of the last item in sorted order",
    "a location that is still referred to is dropped",
    [(REC, '''            .map(origin)
            .max()
            .unwrap_or(self.earleme());''', '''            .map(origin)
            .last()
            .unwrap_or(self.earleme());''')],
    KIT + '''fn main() {
    // R ::= p S, S ::= a Q w | a b y, Q ::= b z (with y and z in either order)
    for (y, z) in [(6, 7), (7, 6)] {
        let g = grammar(9, 0, &[(0, &[8, 1]), (1, &[3, 2, 5]), (1, &[3, 4, y]), (2, &[4, z])]);
        assert_eq!(accepts(&g, &[8, 3, 4, y]).last(), Some(&true));
        assert_eq!(accepts(&g, &[8, 3, 4, z, 5]).last(), Some(&true));
    }
}''')
bug("r11-small-memory-limit", "R11", "a policy with a small memory limit",
    "the requested capacity is negative: creating the recognizer panics",
    [(PERF, "        cmp::max(self.chart_use() / self.bytes_per_set() as isize, 32) as usize",
      "        cmp::min(self.chart_use() / self.bytes_per_set() as isize, 32) as usize")],
    KIT + '''fn main() {
    let g = grammar(2, 0, &[(0, &[1])]);
    for limit in [0, 1, 1000, 100_000] {
        let p = gearley_recognizer::perf_hint::DefaultPerfHint::new(limit);
        let mut r = Recognizer::with_forest_and_policy(&g, NullForest, p);
        start(&mut r);
        assert!(token(&mut r, 1, 0) && r.is_finished());
    }
}''')
bug("r12-trace-length", "R12", "asking for the trace at a location with items that do not start at the beginning",
    "the trace shows how long an item is instead of where it starts",
    [(EVENT, "                    .map(|item| (trace0[item.dot as usize], item.origin as usize)),",
      "                    .map(|item| (trace0[item.dot as usize], self.earleme() - item.origin as usize)),")],
    KIT + '''fn main() {
    // S ::= a a a a
    let g = grammar(2, 0, &[(0, &[1, 1, 1, 1])]);
    for n in 0..4 {
        let mut r = Recognizer::new(&g);
        start(&mut r);
        for _ in 0..n {
            token(&mut r, 1, 0);
        }
        r.begin_earleme();
        let origins: Vec<usize> = r.medial_items().map(|i| i.origin as usize).collect();
        let predictions = r.predicted_symbols().count();
        let traced: Vec<usize> = r.trace().skip(predictions).map(|(_, o)| o).collect();
        assert_eq!(origins, traced);
    }
}''')
bug("g02-unary-before-binary", "G02", "a symbol that begins both a unary rule and a binary rule",
    "completion tables list unary rules first; the recognizer takes a pending item for a completed one",
    [(DG, "        for (rhs0_sym, transition) in binary_rules.into_iter().chain(unary_rules.into_iter()) {",
      "        for (rhs0_sym, transition) in unary_rules.into_iter().chain(binary_rules.into_iter()) {")],
    KIT + '''fn main() {
    // S ::= A b | A, A ::= a
    let g = grammar(4, 0, &[(0, &[1, 3]), (0, &[1]), (1, &[2])]);
    let a = g.to_internal(sym(1)).unwrap();
    let t: Vec<bool> = g.completions(a).iter().map(|t| t.is_unary).collect();
    assert_eq!(t, [false, true]);
}''')
bug("g03-follow-of-the-first-block", "G03", "a grammar with more than 32 symbols",
    "nothing beyond the first block of the bit matrix follows a symbol, so that hints drop completions",
    [(DG, "                .zip(follow_matrix[i].iter_blocks())\n            {", "                .zip(follow_matrix[i].iter_blocks())\n                .take(self.size.syms / 64 + 1)\n            {")],
    KIT + """fn main() {
    // S ::= A_i t_i, A_i ::= a
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..20 {
        rules.push((0, vec![1 + i, 21 + i]));
        rules.push((1 + i, vec![41]));
    }
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let g = grammar(42, 0, &rules);
    for i in 0..20 {
        let a = g.to_internal(sym(1 + i)).unwrap();
        let t = g.to_internal(sym(21 + i)).unwrap();
        assert!(g.lhs_lr_set(a)[t.usize()]);
    }
}""")
bug("g05-trace-of-the-wrong-column", "G05", "asking for the trace of the dot after the second symbol",
    "the dot after the second symbol is traced as the one before it",
    [(DG, '''        self.columns[2].tracing = grammar
            .column(2)''', '''        self.columns[2].tracing = grammar
            .column(1)''')],
    KIT + '''fn main() {
    let g = grammar(4, 0, &[(0, &[1, 2]), (1, &[2, 3])]);
    let t = g.trace();
    assert!(t[1].iter().zip(t[2]).any(|(a, b)| a.pos != b.pos));
}''')
bug("f05-omitted-symbol-twice", "F05", "evaluating twice where a rule left out an empty symbol, or sharing such a node between two trees",
    "the omitted symbol is added again on every visit",
    [(SB, '''            if let Node::Rule { .. } = self[factors] {
                return node;
            }
            if action == NULL_ACTION {''', '''            if action == NULL_ACTION {''')],
    KIT + '''fn main() {
    // S ::= a n, n ::= | b
    let g = grammar(4, 0, &[(0, &[1, 2]), (2, &[]), (2, &[3])]);
    let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    start(&mut r);
    token(&mut r, 1, 0);
    let node = r.finished_node().unwrap();
    let mut f = r.into_forest();
    let a = f.evaluate(Text(&g), node);
    let b = f.evaluate(Text(&g), node);
    assert_eq!(a, ["(0 1:0 ~2)"]);
    assert_eq!(a, b);
}''')
bug("f04-node-size", "F04", "an ambiguous node whose summands refer to nodes 65536 or more bytes into the forest",
    "the second summand is looked for at the wrong position",
    [(CG, "        let l_len = ((head >> 3) & 0b11) + 1;\n        let r_len = ((head >> 5) & 0b11) + 1;\n        1 + l_len",
      "        let l_len = ((head >> 3) & 0b11) + 1;\n        let r_len = ((head >> 5) & 0b01) + 1;\n        1 + l_len")],
    KIT + '''fn main() {
    // S ::= a S | T ; T ::= t t t: fill the forest, then be ambiguous at the end
    // S ::= L E, L ::= L a | a, E ::= E b E | c
    let g = grammar(6, 0, &[(0, &[1, 2]), (1, &[1, 3]), (1, &[3]), (2, &[2, 4, 2]), (2, &[5])]);
    let mut w = vec![3; 6000];
    w.extend([5, 4, 5, 4, 5]);
    assert_eq!(compact(&g, &w, &[]).len(), 2);
}''')
bug("f03-empty-pair", "F03", "a rule that begins with two omitted empty symbols, in the compact forest",
    "the second of two empty symbols that are omitted together is read from a wrong node",
    [(CB, "                        right_factor: right_factor.mul(),", "                        right_factor: right_factor,")],
    KIT + '''fn main() {
    // S ::= n m k a: n, m and k may be empty
    let g = grammar(6, 0, &[(0, &[2, 3, 4, 1]), (2, &[]), (2, &[5]), (3, &[]), (3, &[5]), (4, &[]), (4, &[5])]);
    assert_eq!(compact(&g, &[1], &[]), ["(0 ~2 ~3 ~4 1:0)"]);
}''')
bug("u01-prefix-is-accepted", "U01", "parsing a proper prefix of a sentence",
    "a prefix that could become a sentence counts as one",
    [(PARSE, "        Ok(self.is_finished())", "        Ok(!self.is_exhausted())")],
    KIT + '''use gearley_utils::RecognizerParseExt;
fn main() {
    let g = grammar(3, 0, &[(0, &[1, 2])]);
    let mut r = Recognizer::new(&g);
    assert_eq!(r.parse(&[sym(1)]).ok(), Some(false));
    let mut r = Recognizer::new(&g);
    assert_eq!(r.parse(&[sym(1), sym(2)]).ok(), Some(true));
}''')
bug("u02-empty-words-are-skipped", "U02", "a list of words with an empty word in it",
    "empty words are ignored instead of being reported as unknown",
    [(PARSE, "            tokens.push(*token);\n        } else {", "            tokens.push(*token);\n        } else if !word.is_empty() {")],
    KIT + '''fn main() {
    let mut c = cfg(2, 0, &[(0, &[1])]);
    c.sym_source_mut().set_names(vec![Some("start".into()), Some("x".into())]);
    let g = DefaultGrammar::from_grammar(c.clone());
    assert!(gearley_utils::parse_terminal_list(c.clone(), g.clone(), ["x"].into_iter()).is_ok());
    assert!(gearley_utils::parse_terminal_list(c, g, ["", "x"].into_iter()).is_err());
}''')
bug("u03-first-class-only", "U03", "a character that belongs to several classes of which the first does not fit",
    "only the first class of a character is tried",
    [(PARSE, "        for &terminal in loaded.lexer_map.get(ch) {", "        for &terminal in loaded.lexer_map.get(ch).first() {")],
    KIT + '''use cfg_load::advanced::{AdvancedGrammar, LexerMap};
fn main() {
    let c = cfg(3, 0, &[(0, &[1, 2])]);
    let g = DefaultGrammar::from_grammar(c.clone());
    let mut m = LexerMap::default();
    m.insert('a', 'z', sym(1));
    m.insert('b', 'b', sym(2));
    assert!(gearley_utils::parse_tokenizing(AdvancedGrammar { cfg: c, lexer_map: m }, g, "ab").is_ok());
}''')
bug("c01-long-factor", "C01", "a factor with more than 65535 elements",
    "the enumeration stops short of the factor's last elements or runs past them",
    [(CART, "end: start.offset(slice.len() as isize),", "end: start.offset((slice.len() as u16).wrapping_sub(1) as isize + 1),")],
    '''use cartesian_product::CartesianProduct;
fn main() {
    let long: Vec<u8> = vec![1; 70_000];
    let short = [1u8];
    let mut p = CartesianProduct::new();
    p.push(&short);
    p.push(&long);
    let mut n = 1;
    while p.advance() {
        n += 1;
    }
    assert_eq!(n, 70_000);
}''')
bug("c02-extend-restarts", "C02", "extending a product by several factors while its enumeration has begun",
    "the positions of the earlier factors go back to the start",
    [(CART, "        let first_new = self.ranges.len();\n        self.ranges.extend(product.map(|slice| Factor::new(slice)));", "        let first_new = 0;\n        self.ranges.extend(product.map(Factor::new));\n        self.ptrs.clear();")],
    '''use cartesian_product::CartesianProduct;
fn main() {
    let (a, b) = ([1, 2, 3], [4, 5]);
    let mut p = CartesianProduct::new();
    p.push(&a[..]);
    p.advance();
    p.extend([&b[..], &a[..]].into_iter());
    assert_eq!(p.as_slice(), &[&2, &4, &1]);
}''')
bug("v03-collect-into-nothing", "V03", "a vector of sets made with a capacity of zero",
    "it begins with no set at all",
    [(VEC, "        indices.push(0);\n        Self {", "        if capacity.indices_capacity > 0 {\n            indices.push(0);\n        }\n        Self {")],
    VUSE + '''fn main() {
    let v: Vec2d<i32> = vec![vec![1], vec![], vec![2, 3]].into_iter().collect();
    assert_eq!(v.len(), 4);
    assert_eq!((&v[0], &v[1], &v[2]), (&[1][..], &[][..], &[2, 3][..]));
}''')
bug("v02-truncate-long-tail", "V02", "truncating sets when the set in progress is longer than all the sets that are dropped",
    "part of the set in progress is lost",
    [(VEC, '''        self.chart
            .truncate(self.chart.len() + new_medial_start as usize - self.indices.last().unwrap());''',
      '''        self.chart
            .truncate(std::cmp::min(*self.indices.last().unwrap(), self.chart.len() + new_medial_start as usize - self.indices.last().unwrap()));''')],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.extend(vec![vec![1], vec![2], vec![3]]);
    for i in 4..9 {
        v.push_item(i);
    }
    v.truncate(1);
    assert_eq!(v.last(), &[4, 5, 6, 7, 8]);
}''')
bug("r01-sorted-by-low-byte", "R01", "a grammar with more than 256 symbols, and pending items for symbols that differ by 256 or more",
    "pending items are not in the order that the search for them relies on",
    [(REC, "                    self.grammar.get_rhs1(item.dot).unwrap(),\n", "                    self.grammar.get_rhs1(item.dot).unwrap().usize() as u8,\n")],
    KIT + '''fn main() {
    // S ::= a x_i, x_i ::= t_i t_i: after a, all of x_i are pending
    let n = 300;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..n {
        rules.push((0, vec![1, 2 + i]));
        rules.push((2 + i, vec![2 + n + i, 2 + n + i]));
    }
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let g = grammar(2 + 2 * n, 0, &rules);
    for i in 0..n {
        let t = 2 + n + i;
        assert_eq!(accepts(&g, &[1, t, t]).last(), Some(&true));
    }
}''')
bug("r03-stale-predictions", "R03", "locations were dropped, and a later location takes the place of a dropped one",
    "the later location keeps the predictions of the dropped one",
    [(REC, "            self.predicted.truncate(new_earleme + 1);\n", ""),
     (REC, "        self.predicted.grow(1, false);\n", "        if self.predicted.num_rows() < self.earleme() + 2 {\n            self.predicted.grow(1, false);\n        }\n")],
    KIT + '''fn main() {
    // S ::= x L, L ::= L P | P, P ::= p N q N r, N ::= n: the words x p n q n r p n q ...
    let g = grammar(9, 0, &[(0, &[3, 1]), (1, &[1, 2]), (1, &[2]), (2, &[4, 7, 5, 7, 6]), (7, &[8])]);
    let good = [3, 4, 8, 5, 8, 6, 4, 8, 5, 8, 6, 4, 8, 5, 8, 6];
    for n in 1..good.len() {
        for t in [3, 4, 5, 6, 8] {
            let mut w = good[..n].to_vec();
            w.push(t);
            let ok = t == good[n];
            assert_eq!(accepts(&g, &w).len() - 1 == w.len(), ok, "{:?}", w);
        }
    }
}''')
bug("r07-one-leaf-per-location", "R07", "scanning two different tokens with the same value at one location",
    "both tokens share the leaf of the first one",
    [(REC, "        let node = self.forest.leaf(symbol, earleme + 1, value);\n", "        let node = match self.last_leaf {\n            // The same text is kept once.\n            Some((at, with, node)) if at == earleme && with == value && !self.complete.is_empty() => node,\n            _ => self.forest.leaf(symbol, earleme + 1, value),\n        };\n        self.last_leaf = Some((earleme, value, node));\n"),
     (REC, "    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,\n", "    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,\n    last_leaf: Option<(Origin, u32, F::NodeRef)>,\n"),
     (REC, "            complete: BinaryHeap(Vec::with_capacity(policy.completion_capacity())),\n", "            complete: BinaryHeap(Vec::with_capacity(policy.completion_capacity())),\n            last_leaf: None,\n")],
    KIT + '''fn main() {
    // S ::= A | B, A ::= a, B ::= b
    let g = grammar(5, 0, &[(0, &[1]), (0, &[2]), (1, &[3]), (2, &[4])]);
    let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    start(&mut r);
    r.begin_earleme();
    for t in [3, 4] {
        r.scan(g.to_internal(sym(t)).unwrap(), 7);
    }
    assert!(r.end_earleme());
    let node = r.finished_node().unwrap();
    let mut t = r.into_forest().evaluate(Text(&g), node);
    t.sort();
    assert_eq!(t, ["(0 (2 3:7))", "(1 (3 4:7))"]);
}''')
bug("r13-only-scans-advance", "R13", "a location at which tokens from earlier locations end, but no token is scanned",
    "the parse stops there",
    [(REC, "        self.medial.last().is_empty() && self.complete.is_empty()\n", "        !self.scanned || self.medial.last().is_empty() && self.complete.is_empty()\n"),
     (REC, "        let earleme = self.earleme() as Origin;\n        let value_cp", "        self.scanned = true;\n        let earleme = self.earleme() as Origin;\n        let value_cp"),
     (REC, "        self.medial.next_set();\n", "        self.medial.next_set();\n        self.scanned = false;\n"),
     (REC, "    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,\n", "    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,\n    scanned: bool,\n"),
     (REC, "            complete: BinaryHeap(Vec::with_capacity(policy.completion_capacity())),\n", "            complete: BinaryHeap(Vec::with_capacity(policy.completion_capacity())),\n            scanned: false,\n")],
    KIT + '''fn main() {
    // S ::= a c | b c, where b spans both locations that a and c may
    let g = grammar(4, 0, &[(0, &[1, 1, 3]), (0, &[2, 3])]);
    let s = |i: usize| g.to_internal(sym(i)).unwrap();
    let mut r = Recognizer::new(&g);
    start(&mut r);
    let from = r.earleme() as u32 + 1;
    assert!(token(&mut r, 1, 0));
    r.begin_earleme();
    r.complete(from, s(2), ());
    assert!(!r.is_exhausted());
    assert!(r.end_earleme());
    assert!(token(&mut r, 3, 0));
    assert!(r.is_finished());
}''')
bug("r14-sorted-by-the-automatic-pass-only", "R14", "completing by hand at a location with several pending items",
    "the pending items stay in the order of their completion, and searches miss some of them",
    [(REC, "        self.sort_medial_items();\n        self.remove_unreachable_sets();\n", "        self.remove_unreachable_sets();\n"),
     (REC, "            self.complete_all_sums_entirely();\n", "            self.complete_all_sums_entirely();\n            self.sort_medial_items();\n")],
    KIT + '''fn main() {
    // S ::= S x | X y | Y z, X ::= a, Y ::= a
    let g = grammar(7, 0, &[(0, &[0, 3]), (0, &[1, 4]), (0, &[2, 5]), (1, &[6]), (2, &[6]), (0, &[6, 3])]);
    for w in [[6usize, 3, 3], [6, 4, 3], [6, 5, 3]] {
        let mut r = Recognizer::new(&g);
        r.begin_earleme();
        r.scan(g.sof(), 0);
        for t in w {
            while let Some(mut group) = r.next_sum() {
                group.complete_entire_sum();
            }
            r.advance_after_completion();
            r.begin_earleme();
            r.scan(g.to_internal(sym(t)).unwrap(), 0);
            assert!(!r.is_exhausted());
        }
        while let Some(mut group) = r.next_sum() {
            group.complete_entire_sum();
        }
        r.advance_after_completion();
        assert!(r.is_finished());
    }
}''')
bug("g01-generated-symbol-completes-one-rule", "G01", "a rule of three or more symbols whose last one is nullable",
    "of the two rules that begin with the generated symbol, only one is found",
    [(DG, "                table.gen_completions[rhs0_sym - self.size.syms][transition.is_unary as usize] =\n                    Some(transition);",
      "                let found = table.gen_completions[rhs0_sym - self.size.syms][0].is_some();\n                if !found {\n                    table.gen_completions[rhs0_sym - self.size.syms][transition.is_unary as usize] =\n                        Some(transition);\n                }")],
    KIT + '''fn main() {
    // S ::= a b C, C ::= | c
    let g = grammar(5, 0, &[(0, &[1, 2, 3]), (3, &[]), (3, &[4])]);
    assert_eq!(accepts(&g, &[1, 2]), [false, false, true]);
    assert_eq!(accepts(&g, &[1, 2, 4]), [false, false, true, true]);
}''')
bug("g06-binary-rules-before-unary-rules", "G06", "a symbol with a rule of one symbol and a longer rule, among other symbols",
    "the rules of one symbol are not next to each other, so that completions of it are not taken together",
    [(DG, "        grammar.sort_by(|a, b| a.lhs.cmp(&b.lhs));", "        grammar.sort_by(|a, b| (a.rhs.len() == 1, a.lhs).cmp(&(b.rhs.len() == 1, b.lhs)));")],
    KIT + '''fn main() {
    // S ::= A c | B, A ::= a | a a, B ::= b | b b
    let g = grammar(6, 0, &[(0, &[1, 3]), (0, &[2]), (1, &[4]), (1, &[4, 4]), (2, &[5]), (2, &[5, 5]), (2, &[1])]);
    let lhs: Vec<usize> = (0..g.num_rules()).map(|d| g.get_lhs(d as u32).usize()).collect();
    assert!(lhs.windows(2).all(|w| w[0] <= w[1]), "{:?}", lhs);
}''')
bug("g07-clone-without-unary-completions", "G07", "cloning a grammar in which a generated symbol begins two rules",
    "the copy lacks the shorter of the two rules",
    [(DG, "#[derive(miniserde::Serialize, miniserde::Deserialize, Clone, Default, Debug)]\npub struct DefaultGrammar {", "#[derive(miniserde::Serialize, miniserde::Deserialize, Default, Debug)]\npub struct DefaultGrammar {"),
     (DG, "struct CompletionTable {", '''impl Clone for DefaultGrammar {
    fn clone(&self) -> Self {
        DefaultGrammar {
            start_sym: self.start_sym,
            original_start_sym: self.original_start_sym,
            has_trivial_derivation: self.has_trivial_derivation,
            sof_sym: self.sof_sym,
            eof_sym: self.eof_sym,
            dot_before_eof: self.dot_before_eof,
            size: self.size.clone(),
            prediction_matrix: self.prediction_matrix.clone(),
            completions: self.completions.clone(),
            gen_completions: self
                .gen_completions
                .iter()
                .map(|all| [all.iter().flatten().next().copied(), None])
                .collect(),
            lr_sets: self.lr_sets.clone(),
            columns: self.columns.clone(),
            sym_maps: self.sym_maps.clone(),
            scan_prediction_matrix: self.scan_prediction_matrix.clone(),
            forest_info: self.forest_info.clone(),
        }
    }
}

struct CompletionTable {''')],
    KIT + '''fn main() {
    // S ::= a b C, C ::= | c
    let g = grammar(5, 0, &[(0, &[1, 2, 3]), (3, &[]), (3, &[4])]);
    for w in [&[1usize, 2][..], &[1, 2, 4], &[1, 4]] {
        assert_eq!(accepts(&g, w), accepts(&g.clone(), w));
    }
}''')
bug("g08-nothing-else-is-empty", "G08", "a start symbol that derives the empty string in a grammar where no rule mentions an empty symbol",
    "the empty input is not accepted",
    [(DG, "        result.populate_nulling(nulling);\n", "        // The rule around the start symbol alone needs no empty nodes.\n        let omitting = result.forest_info.nulling_eliminated.iter().flatten().count();\n        if omitting > 1 {\n            result.populate_nulling(nulling);\n        }\n")],
    KIT + '''fn main() {
    let empty = |g: &DefaultGrammar| Recognizer::new(g).is_finished();
    // S ::= A B, A ::= | a, B ::= | b
    assert!(empty(&grammar(5, 0, &[(0, &[1, 2]), (1, &[]), (1, &[3]), (2, &[]), (2, &[4])])));
    assert!(empty(&grammar(3, 0, &[(0, &[]), (0, &[1])])));
    assert!(!empty(&grammar(4, 0, &[(0, &[1, 3]), (1, &[]), (1, &[2])])));
}''')
bug("f01-empty-symbol-taken-apart", "F01", "a rule that leaves out a symbol which derives nothing through a rule of two symbols",
    "the rule gets both symbols of that inner rule as arguments, in place of one",
    [(DG, "                if rule.history.origin().is_null() && rule.rhs.len() == 2 {", "                if rule.rhs.len() == 2 {")],
    KIT + '''fn main() {
    // S ::= N a, N ::= P Q, P ::= | p, Q ::= | q
    let g = grammar(7, 0, &[(0, &[1, 4]), (1, &[2, 3]), (2, &[]), (2, &[5]), (3, &[]), (3, &[6])]);
    assert_eq!(simple(&g, &[4], &[]), ["(0 ~1 4:0)"]);
}''')
bug("f02-equal-matches-once", "F02", "two alternatives of one rule that differ only in where its parts meet",
    "only one of them is kept",
    [(REC, "                self.recognizer.heap_pop();\n                Some(completion)", "                // A match that was found in several ways is taken once.\n                while self.recognizer.heap_peek() == Some(completion) {\n                    self.recognizer.heap_pop();\n                }\n                Some(completion)")],
    KIT + '''fn main() {
    // S ::= S S | a
    let g = grammar(2, 0, &[(0, &[0, 0]), (0, &[1])]);
    let t = simple(&g, &[1, 1, 1], &[]);
    assert_eq!(t, ["(0 (0 (1 1:0) (1 1:1)) (1 1:2))", "(0 (1 1:0) (0 (1 1:1) (1 1:2)))"]);
}''')
bug("f06-start-taken-apart", "F06", "evaluating the parse of the empty input where the start symbol is empty through a rule of two symbols",
    "the empty start symbol is taken for two empty symbols",
    [(DG, "                if rule.history.origin().is_null() && rule.rhs.len() == 2 {", "                if (rule.history.origin().is_null() || rule.lhs == start_sym) && rule.rhs.len() == 2 {")],
    KIT + '''fn main() {
    // S ::= A B, A ::= | a, B ::= | b
    let g = grammar(5, 0, &[(0, &[1, 2]), (1, &[]), (1, &[3]), (2, &[]), (2, &[4])]);
    let r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    let node = r.finished_node().unwrap();
    let t = r.into_forest().evaluate(Text(&g), node);
    assert_eq!(t, ["~0"]);
}''')
bug("g04-useless-symbols-share-a-number", "G04", "a grammar with a symbol that occurs in no parse",
    "several symbols translate to the number of one other symbol",
    [(DG, "            self.sym_maps.to_internal[symbol.usize()]", "            self.sym_maps.to_internal[symbol.usize()].or(Some(self.useless_symbol()))")],
    KIT + '''fn main() {
    // S ::= a, and two symbols that nothing uses
    let g = grammar(4, 0, &[(0, &[1])]);
    for s in (0..4).map(sym) {
        if let Some(i) = g.to_internal(s) {
            assert_eq!(g.to_external(i), s);
        }
    }
}''')
bug("v01-last-item-of-the-open-set", "V01", "asking for the last item right after a set was closed",
    "there is none, though there are items",
    [(VEC, "        self.chart.last()\n", "        self.last().last()\n")],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.push_item(7);
    assert_eq!(v.last_item(), Some(&7));
    v.next_set();
    assert_eq!(v.last_item(), Some(&7));
    v.next_set();
    assert_eq!(v.last_item(), Some(&7));
    assert!(v.last().is_empty());
}''')
bug("v03-set-known-to-be-empty", "V03", "extending by a set whose iterator announces that it is empty",
    "the set is left out",
    [(VEC, "        self.chart.extend(set);\n        self.next_set();", "        if set.size_hint() == (0, Some(0)) && self.last().is_empty() && self.indices.len() > 1 {\n            return;\n        }\n        self.chart.extend(set);\n        self.next_set();")],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.extend(vec![vec![1], vec![], vec![2]]);
    assert_eq!(v.len(), 4);
    assert_eq!(&v[1], &[] as &[i32]);
    assert_eq!(&v[2], &[2]);
}''')
bug("v04-assigned-over-more-sets", "V04", "assigning a copy over a vector that has more sets",
    "sets of the old value remain behind those of the new one",
    [(VEC, "#[derive(Clone, Debug)]\npub struct Vec2d<I> {\n    chart: Vec<I>,\n    indices: Vec<usize>,\n}\n",
      "#[derive(Debug)]\npub struct Vec2d<I> {\n    chart: Vec<I>,\n    indices: Vec<usize>,\n}\n\nimpl<I: Clone> Clone for Vec2d<I> {\n    fn clone(&self) -> Self {\n        Self {\n            chart: self.chart.clone(),\n            indices: self.indices.clone(),\n        }\n    }\n\n    fn clone_from(&mut self, other: &Self) {\n        // Keeps the memory of both.\n        self.chart.clone_from(&other.chart);\n        let kept = self.indices.len().min(other.indices.len());\n        self.indices[..kept].copy_from_slice(&other.indices[..kept]);\n        self.indices.extend_from_slice(&other.indices[kept..]);\n    }\n}\n")],
    VUSE + '''fn main() {
    let mut a = Vec2d::new();
    let mut b = Vec2d::new();
    a.extend(vec![vec![1]]);
    b.extend(vec![vec![5], vec![6], vec![7]]);
    let mut c = a.clone();
    c.clone_from(&a);
    assert_eq!(c.len(), 2);
    b.clone_from(&a);
    assert_eq!(b.len(), 2);
    assert_eq!(b.last(), &[] as &[i32]);
}''')
bug("v02-truncate-to-an-empty-set", "V02", "truncating so that the first dropped set is an empty one",
    "one set more is kept",
    [(VEC, "        self.indices.truncate(new_len + 1);", "        // Sets that begin where the set in progress now begins are kept.\n        let end = self.indices[new_len..].partition_point(|&i| i <= new_medial_start);\n        self.indices.truncate((new_len + end).min(new_len + 2));\n        if end == 1 || self.indices.len() == new_len + 1 || self.indices[new_len + 1..].is_empty() {\n            self.indices.truncate(new_len + 1);\n        }")],
    VUSE + '''fn main() {
    let mut v = Vec2d::new();
    v.extend(vec![vec![1], vec![2], vec![3]]);
    v.truncate(1);
    assert_eq!(v.len(), 2);
    let mut v = Vec2d::new();
    v.extend(vec![vec![1], vec![], vec![3]]);
    v.truncate(1);
    assert_eq!(v.len(), 2);
    assert_eq!(&v[0], &[1]);
}''')
bug("c01-combinations-are-counted", "C01", "a product with a multiple of 2^32 combinations",
    "the enumeration ends too early",
    [(CART, '''    pub fn advance(&mut self) -> bool {
        for (ptr, factor)''', '''    pub fn advance(&mut self) -> bool {
        let mut combinations = 1u32;
        for factor in &self.ranges {
            let length = unsafe { factor.end.offset_from(factor.start) };
            combinations = combinations.wrapping_mul(length as u32);
        }
        if combinations == 0 {
            return false;
        }
        for (ptr, factor)''')],
    CUSE + '''fn main() {
    let bits = [0u8, 1];
    for n in [1usize, 20, 31, 32, 40] {
        let mut p = CartesianProduct::new();
        for _ in 0..n {
            p.push(&bits);
        }
        if n > 1 {
            assert!(p.advance());
            assert_eq!(*p.as_slice()[0], 1);
        }
        assert!(p.advance() == (n > 1) || n == 1);
    }
}''')
bug("c02-first-wheel-that-turns", "C02", "extending by long factors when all factors so far have one element",
    "the factors pushed first are skipped for good, and long ones with them",
    [(CART, '''    ranges: Vec<Factor<'a, V>>,
}''', '''    ranges: Vec<Factor<'a, V>>,
    // Factors before it have one element each.
    fixed: usize,
}'''),
     (CART, '''            ranges: Vec::with_capacity(8),
''', '''            ranges: Vec::with_capacity(8),
            fixed: 0,
'''),
     (CART, '''        self.ranges.push(Factor::new(slice));
''', '''        if slice.len() == 1 && self.fixed == self.ranges.len() {
            self.fixed += 1;
        }
        self.ranges.push(Factor::new(slice));
'''),
     (CART, "        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {", "        let fixed = self.fixed;\n        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).skip(fixed) {")],
    CUSE + '''fn main() {
    let (one, two) = ([1u8], [1u8, 2]);
    let count = |p: &mut CartesianProduct<u8>| {
        let mut n = 1;
        while p.advance() {
            n += 1;
        }
        n
    };
    let mut p = CartesianProduct::new();
    p.push(&one);
    p.push(&two);
    assert_eq!(count(&mut p), 2);
    p.clear();
    p.push(&two);
    p.push(&two);
    assert_eq!(count(&mut p), 4);
}''')
bug("r05-waiting-items-in-a-byte", "R05", "more than 255 items of one location that wait for the same symbol",
    "only the first 255 of them advance",
    [(REC, "            .take_while(|ei| self.grammar.get_rhs1(ei.dot) == Some(sym))\n            .copied();",
      "            .take_while(|ei| self.grammar.get_rhs1(ei.dot) == Some(sym))\n            .take(u8::MAX as usize)\n            .copied();")],
    KIT + '''fn main() {
    // S ::= x_i, x_i ::= a B c_i, B ::= b
    let n = 300;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![(3, vec![2])];
    for i in 0..n {
        rules.push((0, vec![4 + i]));
        rules.push((4 + i, vec![1, 3, 4 + n + i]));
    }
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let g = grammar(4 + 2 * n, 0, &rules);
    for i in 0..n {
        assert_eq!(accepts(&g, &[1, 2, 4 + n + i]).last(), Some(&true));
    }
}''')
bug("f04-summands-in-a-byte", "F04", "a node with 257 alternatives, or 256 more than that",
    "the node is taken for one with a single alternative",
    [(CB, "    num_summands: usize,", "    num_summands: u8,"),
     (CB, "        self.num_summands += 1;", "        self.num_summands = self.num_summands.wrapping_add(1);")],
    KIT + '''fn main() {
    // S ::= x_i, x_i ::= a
    for n in [2, 256, 257, 258] {
        let mut rules: Vec<(usize, Vec<usize>)> = vec![];
        for i in 0..n {
            rules.push((0, vec![2 + i]));
            rules.push((2 + i, vec![1]));
        }
        let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
        let g = grammar(2 + n, 0, &rules);
        assert_eq!(compact(&g, &[1], &[]).len(), n);
    }
}''')
