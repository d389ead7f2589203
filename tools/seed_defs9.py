DG = "gearley-default-grammar/src/lib.rs"
bug("r02-refused-remembered", "R02", REC,
"""    pub(crate) lookahead: DefaultLookahead,
    // The policy.
""",
"""    pub(crate) lookahead: DefaultLookahead,
    // The token read last, and the one refused at this position.
    last_read: Option<Symbol>,
    refused: Option<Symbol>,
    // The policy.
""",
"a token refused at a position that is then closed by hand, and comes up at the next one",
"the refusal is remembered past its position",
r'''
use kit::*;
fn main() {
    // S ::= a b | S a b
    let g = grammar(1, 2, &[(0, &[1, 2]), (0, &[0, 1, 2])], 0);
    let mut r = Recognizer::new(&g);
    start(&mut r);
    for _ in 0..3 {
        r.begin_earleme();
        r.scan(t(&g, 2), 0);
        assert!(!r.end_earleme());
        r.scan(t(&g, 1), 0);
        assert!(!r.is_exhausted());
        while let Some(mut sum) = r.next_sum() {
            sum.complete_entire_sum();
        }
        r.advance_after_completion();
        assert!(one(&mut r, 2, 0), "the second token of a pair");
        assert!(r.is_finished());
    }
}
''', more=[
(REC,
"""            lookahead: DefaultLookahead::new(&grammar),
""",
"""            lookahead: DefaultLookahead::new(&grammar),
            last_read: None,
            refused: None,
"""),
(REC,
"""        // This method is a part of the scan pass.
""",
"""        // What was just refused is refused again.
        if self.refused == Some(symbol) {
            return;
        }
        self.last_read = Some(symbol);
        // This method is a part of the scan pass.
"""),
(REC,
"""        if self.is_exhausted() {
            false
        } else {
            trace!("recognizer.completions_after_scan""",
"""        if self.is_exhausted() {
            self.refused = self.last_read;
            false
        } else {
            self.refused = None;
            trace!("recognizer.completions_after_scan"""),
(REC,
"""        // Remove items.
        self.medial.clear();
""",
"""        // Remove items.
        self.refused = None;
        self.medial.clear();
"""),
])

bug("r03-last-decides", "R03", REC,
"""    pub(crate) lookahead: DefaultLookahead,
    // The policy.
""",
"""    pub(crate) lookahead: DefaultLookahead,
    // Whether the token could be used.
    used: bool,
    // The policy.
""",
"several alternative tokens at a position, the last of which cannot continue the input",
"the position is reported as a dead end although another token was acceptable",
r'''
use kit::*;
fn main() {
    let g = grammar(1, 3, &[(0, &[1, 0]), (0, &[2])], 0);
    for offer in [&[1][..], &[3, 1], &[1, 3], &[3, 1, 3, 3], &[1, 1]] {
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        for &k in offer {
            // The last terminal is used nowhere; any symbol that isn't expected will do.
            r.scan(if k == 3 { sym(g.sof_num()) } else { t(&g, k) }, 0);
        }
        assert!(r.end_earleme(), "{offer:?}");
        assert!(one(&mut r, 2, 0), "{offer:?}");
    }
}
''', more=[
(REC,
"""            lookahead: DefaultLookahead::new(&grammar),
""",
"""            lookahead: DefaultLookahead::new(&grammar),
            used: false,
"""),
(REC,
"""        self.complete(earleme, symbol, node);
    }
""",
"""        let items = self.medial.item_count() + self.complete.0.len();
        self.complete(earleme, symbol, node);
        self.used = self.medial.item_count() + self.complete.0.len() > items;
    }
"""),
(REC,
"""        if self.is_exhausted() {
            false
        } else {
            trace!("recognizer.completions_after_scan""",
"""        if !self.used || self.is_exhausted() {
            false
        } else {
            trace!("recognizer.completions_after_scan"""),
])

bug("r04-hints-stacked", "R04", "gearley-recognizer/src/lookahead.rs",
"""    next_symbol: Option<Symbol>,
}
""",
"""    next_symbol: Vec<Symbol>,
}
""",
"a third hint for the same position, where the first is wrong for the next one",
"a replaced hint comes back when the new ones are cleared, and prunes at the next position",
r'''
use kit::*;
fn main() {
    // S ::= a S | b, hints: b in place of a for the first position, none for the second.
    for seed in 0..20 {
        let g = grammar(3, 4, &[(0, &[1, 2]), (1, &[3]), (1, &[4]), (2, &[5]), (2, &[6, 0])], seed);
        for (first, then) in [(5, 6), (6, 5)] {
            let mut r = Recognizer::new(&g);
            start(&mut r);
            r.lookahead().set_hint(t(&g, first));
            r.lookahead().set_hint(t(&g, first));
            r.lookahead().set_hint(t(&g, then));
            let rest: &[usize] = if then == 5 { &[3, 5] } else { &[3, 6, 4, 5] };
            for (i, &k) in rest.iter().enumerate() {
                assert!(one(&mut r, k, 0), "seed {seed}: token {i} of {rest:?}");
            }
            assert!(r.is_finished(), "seed {seed}: {rest:?}");
        }
    }
}
''', more=[
("gearley-recognizer/src/lookahead.rs",
"""        self.next_symbol
    }
""",
"""        self.next_symbol.last().copied()
    }
"""),
("gearley-recognizer/src/lookahead.rs",
"""        self.next_symbol = Some(hint);
""",
"""        self.next_symbol.push(hint);
"""),
("gearley-recognizer/src/lookahead.rs",
"""        self.next_symbol = None;
""",
"""        self.next_symbol.pop();
"""),
("gearley-recognizer/src/lookahead.rs",
"""        DefaultLookahead { next_symbol: None }
""",
"""        DefaultLookahead { next_symbol: vec![] }
"""),
])

bug("r12-sorted-when-full", "R12", "gearley-recognizer/src/binary_heap.rs",
"""        let old_indices_len = self.0.len();
        self.0.push(item);
""",
"""        if self.0.len() >= 8 && self.0.len() == self.0.capacity() {
            // Before more room is made: a sorted list is a heap, too.
            self.0.sort_by(|a, b| b.partial_cmp(a).unwrap());
            self.0.dedup_by(|a, b| (a.origin, a.dot) == (b.origin, b.dot));
        }
        let old_indices_len = self.0.len();
        self.0.push(item);
""",
"more completions at once than there is room for, among them ambiguous ones by one rule",
"alternatives are lost when the list of completions grows, which depends on the memory limit",
r'''
use kit::*;
use simple_bocage::Bocage;
fn count(g: &TestGrammar, policy: DefaultPerfHint, n: usize) -> usize {
    let mut r = Recognizer::with_forest_and_policy(g, Bocage::new(g), policy);
    assert_eq!(read(&mut r, &vec![2; n]), n);
    let node = r.finished_node().unwrap();
    r.into_forest().evaluate(Write, node).len()
}
fn main() {
    // S ::= E E E E E E, E ::= a | aa | ..: many ways to split a run.
    let g = grammar(2, 1, &[(0, &[1, 1]), (1, &[2]), (1, &[1, 1]), (1, &[1, 1, 1])], 0);
    for n in [4, 6, 7] {
        let want = count(&g, DefaultPerfHint::new(3_000_000), n);
        assert!(want > 5);
        for limit in [1, 500, 2000, 8192, 600_000] {
            assert_eq!(count(&g, DefaultPerfHint::new(limit), n), want, "limit {limit}, {n} tokens");
        }
    }
    // A chain of as many rules as it takes to fill the list.
    let mut rules: Vec<(usize, Vec<usize>)> = (0..30).map(|i| (0, vec![i + 1, 31])).collect();
    rules.extend((0..30).map(|i| (i + 1, vec![32, 33])));
    rules.extend((0..30).map(|i| (i + 1, vec![32, 32, 33])));
    rules.extend((0..30).map(|i| (i + 1, vec![31, 33])));
    rules.push((31, vec![32]));
    rules.push((31, vec![32, 33]));
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
    let g = grammar(32, 3, &rules, 0);
    let all: Vec<_> = [1, 500, 2000, 8192, 600_000, 3_000_000].iter().map(|&limit| {
        let mut r = Recognizer::with_forest_and_policy(&g, Bocage::new(&g), DefaultPerfHint::new(limit));
        let k = read(&mut r, &[32, 33, 32]);
        (k, r.finished_node().map(|n| r.into_forest().evaluate(Write, n).len()))
    }).collect();
    assert!(all.iter().all(|a| *a == all[0]), "{all:?}");
}
''')

bug("f04-node-lent", "F04", "simple-bocage/src/traverse.rs",
"""                        Some(external_origin) if external_origin.id != !0 => {
                            let start = results.len();
""",
"""                        Some(external_origin) if external_origin.id != !0 => {
                            // The node is not used while its action runs.
                            let nonterminal = self.forest_info.eof;
                            let lent = mem::replace(&mut self[work.node], Node::Sum { nonterminal, count: 0 });
                            let start = results.len();
""",
"an evaluation of the slower forest interrupted by the action of a rule, and then repeated",
"the node whose action failed is missing from later evaluations",
r'''
use kit::*;
use std::cell::Cell;
struct Failing<'a>(&'a Cell<i32>);
impl<'b> Evaluate for Failing<'b> {
    type Elem = Text;
    fn leaf(&self, terminal: Symbol, values: u32) -> Text {
        Write.leaf(terminal, values)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Text>) -> Text
    where
        Text: 'a,
    {
        self.0.set(self.0.get() - 1);
        if self.0.get() == 0 {
            std::panic::resume_unwind(Box::new(()));
        }
        Write.product(action, args)
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Text>) {
        Write.nulling(symbol, results)
    }
}
fn main() {
    let g = grammar(1, 2, &[(0, &[1, 0]), (0, &[2])], 0);
    let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    assert_eq!(read(&mut r, &[1, 1, 2]), 3);
    let node = r.finished_node().unwrap();
    let mut forest = r.into_forest();
    let want = texts(forest.evaluate(Write, node));
    for at in 1..5 {
        let left = Cell::new(at);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| forest.evaluate(Failing(&left), node)));
        assert_eq!(texts(forest.evaluate(Write, node)), want, "after a failure of action {at}");
    }
}
''', more=[("simple-bocage/src/traverse.rs",
"""                                results.push(result);
                            }
                            work_stack[work.parent]""",
"""                                results.push(result);
                            }
                            self[work.node] = lent;
                            work_stack[work.parent]""")])

bug("f03-deep", "F03", "compact-bocage/src/traverse.rs",
"""    child: u32,
    parent: usize,
    is_sum: bool,
""",
"""    child: u16,
    parent: u16,
    is_sum: bool,
""",
"a tree more than 32768 levels deep",
"values of a deep tree go to the wrong places",
r'''
use kit::*;
#[derive(Default, Debug, Clone, PartialEq)]
struct N(u64);
struct Count;
impl Evaluate for Count {
    type Elem = N;
    fn leaf(&self, _: Symbol, values: u32) -> N {
        N(values as u64)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a N>) -> N
    where
        N: 'a,
    {
        args.fold(N(action as u64), |x, y| N(x.0.wrapping_mul(31).wrapping_add(y.0)))
    }
    fn nulling<'r>(&self, _: Symbol, _: &'r mut Vec<N>) {}
}
fn main() {
    // S ::= S a | a
    let g = grammar(1, 1, &[(0, &[0, 1]), (0, &[1])], 0);
    for n in [1usize, 100, 30_000, 40_000] {
        let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &vec![1; n]), n);
        let node = r.finished_node().unwrap();
        let got = r.into_forest().evaluate(Count, node);
        let id = |len: usize| g.orig.rules.iter().position(|rule| rule.1.len() == len).unwrap() as u64;
        let mut want = id(1) * 31 + 1;
        for i in 2..=n as u64 {
            want = (id(2).wrapping_mul(31).wrapping_add(want)).wrapping_mul(31).wrapping_add(i);
        }
        assert_eq!(got, [N(want)], "{n} tokens");
    }
}
''', more=[
("compact-bocage/src/traverse.rs",
"""    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
        WorkNode {
            node,
            child: 0,
            parent,
""",
"""    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
        WorkNode {
            node,
            child: 0,
            parent: parent as u16,
"""),
("compact-bocage/src/traverse.rs",
"""                (Node::BeginSum, _) => {
                    work_stack[work.parent].receive(work.results);
""",
"""                (Node::BeginSum, _) => {
                    work_stack[work.parent as usize].receive(work.results);
"""),
("compact-bocage/src/traverse.rs",
"""                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
""",
"""                    work_stack.push(WorkNode::new(left_factor, parent as usize, &alloc));
"""),
("compact-bocage/src/traverse.rs",
"""                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
""",
"""                    work_stack.push(WorkNode::new(right_factor, parent as usize, &alloc));
"""),
("compact-bocage/src/traverse.rs",
"""                    work_stack[work.parent].receive_results(results.len() - 1..results.len());
""",
"""                    work_stack[work.parent as usize].receive_results(results.len() - 1..results.len());
"""),
("compact-bocage/src/traverse.rs",
"""                                results.push(result);
                            }
                            work_stack[work.parent].""",
"""                                results.push(result);
                            }
                            work_stack[work.parent as usize]."""),
("compact-bocage/src/traverse.rs",
"""                        _ => {
                            work_stack[work.parent].receive(""",
"""                        _ => {
                            work_stack[work.parent as usize].receive("""),
("compact-bocage/src/traverse.rs",
"""                            NodeHandle(work.node.0 + size),
                            work.parent,
""",
"""                            NodeHandle(work.node.0 + size),
                            work.parent as usize,
"""),
("compact-bocage/src/traverse.rs",
"""                    eval.nulling(symbol, &mut results);
                    work_stack[work.parent].""",
"""                    eval.nulling(symbol, &mut results);
                    work_stack[work.parent as usize]."""),
])

bug("f06-grouped-by-rule", "F06", REC,
"""        // For each item, include it in the completion.
        while let Some(item) = self.next_summand() {
            self.push_summand(item);
        }
        // Use all items""",
"""        // For each item, include it in the completion, those of a rule together.
        let mut rules = std::collections::HashMap::<_, Vec<_>>::new();
        while let Some(item) = self.next_summand() {
            rules.entry(item.dot).or_default().push(item);
        }
        for item in rules.into_values().flatten() {
            self.push_summand(item);
        }
        // Use all items""",
"two alternatives of different rules",
"the order of values differs from one session to the next",
r'''
use kit::*;
fn main() {
    let g = grammar(3, 1, &[(0, &[1]), (0, &[2]), (0, &[3]), (1, &[3]), (2, &[3])], 0);
    let mut first = None;
    for _ in 0..60 {
        let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &[3]), 1);
        let node = r.finished_node().unwrap();
        let got = texts(r.into_forest().evaluate(Write, node));
        assert_eq!(got.len(), 3);
        assert_eq!(*first.get_or_insert(got.clone()), got);
    }
}
''')

