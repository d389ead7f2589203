# ------------------------------------------------------------------------------------------------ third set
bug("r01-rows-kept", "R01", REC,
"""        self.predicted.truncate(1);
        self.predicted[0].clear();
""",
"""        // A few rows are always needed.
        self.predicted.truncate(3);
        self.predicted[0].clear();
""",
"two sessions whose first tokens differ, on one recognizer with a reset between them",
"what was predicted after the first token of the old session is still predicted in the new one",
r'''
use kit::*;
fn main() {
    for seed in 0..20 {
        // S ::= a X | b Y; X ::= x; Y ::= y
        let g = grammar(3, 4, &[(0, &[3, 1]), (0, &[4, 2]), (1, &[5]), (2, &[6])], seed);
        let mut r = Recognizer::new(&g);
        assert_eq!(read(&mut r, &[3, 5]), 2);
        r.reset();
        start(&mut r);
        assert!(one(&mut r, 4, 0));
        r.begin_earleme();
        let p: Vec<Symbol> = r.predicted_symbols().collect();
        assert!(!p.contains(&t(&g, 5)), "seed {seed}: predicted in the session before the reset only");
        assert!(p.contains(&t(&g, 6)));
    }
}
''')

bug("r03-sorted-ends", "R03", REC,
"""        // Build index by postdot
""",
"""        // Tokens are usually scanned in order of their symbols.
        let key = |item: &Item<F::NodeRef>| (self.grammar.get_rhs1(item.dot), item.dot, item.origin);
        if let [first, .., second_to_last, last] = self.medial.last() {
            if key(first) < key(second_to_last) && key(second_to_last) < key(last) {
                return;
            }
        }
        // Build index by postdot
""",
"four or more items at one position of which the ends are in order and the middle is not, because of the order in which tokens were scanned",
"a set stays unsorted, and some of its items are not found",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        // S ::= Ai Bi; Ai ::= ai; Bi ::= bi, for i in 0..6
        let mut rules: Vec<(usize, Vec<usize>)> = vec![];
        for i in 0..6 {
            rules.push((0, vec![1 + i, 7 + i]));
            rules.push((1 + i, vec![13 + i]));
            rules.push((7 + i, vec![19 + i]));
        }
        let rules: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
        let g = grammar(13, 12, &rules, seed);
        let mut order: Vec<usize> = (0..6).collect();
        let mut x = 99u64 + seed;
        for round in 0..300 {
            for i in 1..order.len() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                order.swap(i, (x >> 33) as usize % (i + 1));
            }
            let mut r = Recognizer::new(&g);
            start(&mut r);
            r.begin_earleme();
            for &i in &order {
                r.scan(t(&g, 13 + i), 0);
            }
            assert!(r.end_earleme());
            let i = order[round % 6];
            assert!(one(&mut r, 19 + i, 0), "seed {seed}: tokens offered in the order {order:?}, then {i} is rejected");
            assert!(r.is_finished());
        }
    }
}
''')

bug("r05-shared-summands", "R05", "simple-bocage/src/bocage.rs",
"""    pub(crate) summand_count: u32,
}

impl Bocage {
""",
"""}

thread_local! {
    /// How many summands the sum under construction has.
    static SUMMANDS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

impl Bocage {
""",
"two sessions interleaved in one thread while one of them is in the middle of a fragment that has several alternatives",
"the count of alternatives is shared by all forests of a thread",
r'''
use kit::*;
fn drive(r: &mut Recognizer<&TestGrammar, simple_bocage::Bocage>, mut between: impl FnMut()) {
    while let Some(mut group) = r.next_sum() {
        while let Some(item) = group.next_summand() {
            group.push_summand(item);
            between();
        }
        group.complete_sum();
    }
    r.advance_after_completion();
}
fn main() {
    for seed in 0..10 {
        // S ::= A b; A ::= B | C; B ::= a; C ::= a
        let g = grammar(4, 2, &[(0, &[1, 5]), (1, &[2]), (1, &[3]), (2, &[4]), (3, &[4])], seed);
        let count = |other: bool| {
            let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            let mut o = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            start(&mut r);
            r.begin_earleme();
            r.scan(t(&g, 4), 1);
            drive(&mut r, || {
                if other {
                    o.reset();
                    read(&mut o, &[4, 5]);
                }
            });
            assert!(one(&mut r, 5, 2));
            let n = r.finished_node().unwrap();
            texts(r.into_forest().evaluate(Write, n))
        };
        let alone = count(false);
        let beside = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| count(true)));
        assert_eq!(beside.ok(), Some(alone), "seed {seed}");
    }
}
''', more=[
("simple-bocage/src/bocage.rs", """            forest_info: grammar.forest_info(),
            summand_count: 0,
""", """            forest_info: grammar.forest_info(),
"""),
("simple-bocage/src/bocage.rs", """        // An earlier sum may have been abandoned.
        self.summand_count = 0;
""", """        // An earlier sum may have been abandoned.
        SUMMANDS.set(0);
"""),
("simple-bocage/src/bocage.rs", """            factors: item.node,
        });
        self.summand_count += 1;
""", """            factors: item.node,
        });
        SUMMANDS.set(SUMMANDS.get() + 1);
"""),
("simple-bocage/src/bocage.rs", """            match self.summand_count {
""", """            match SUMMANDS.get() {
"""),
("simple-bocage/src/bocage.rs", """                        count: self.summand_count as u32,
""", """                        count: summand_count,
"""),
("simple-bocage/src/bocage.rs", """        };
        self.summand_count = 0;
        result
""", """        };
        SUMMANDS.set(0);
        result
"""),
])

bug("r06-stale-row", "R06", REC,
"""            self.predicted.truncate(new_earleme + 1);
            self.medial.truncate(new_earleme + 1);
""",
"""            // One row more, for the set under construction.
            self.predicted.truncate(new_earleme + 2);
            self.medial.truncate(new_earleme + 1);
""",
"a position after which two or more old positions are dropped at once, and input that would be valid at one of those",
"predictions of a dropped position are taken for those of the current one, so that invalid input is accepted",
r'''
use kit::*;
fn main() {
    for seed in 0..30 {
        // S ::= x L y; L ::= L I | I; I ::= a b c d | e f
        let g = grammar(3, 8, &[(0, &[3, 1, 4]), (1, &[1, 2]), (1, &[2]), (2, &[5, 6, 7, 8]), (2, &[9, 10])], seed);
        let mut r = Recognizer::new(&g);
        assert_eq!(read(&mut r, &[3, 5, 6, 7, 8]), 5);
        r.begin_earleme();
        let p: Vec<usize> = r.predicted_symbols().map(|s| s.usize()).collect();
        assert!(!p.contains(&t(&g, 6).usize()) && !p.contains(&t(&g, 7).usize()) && !p.contains(&t(&g, 8).usize()), "seed {seed}: {p:?}");
        for bad in [6, 7, 8, 10] {
            r.scan(t(&g, bad), 0);
            assert!(!r.end_earleme(), "seed {seed}: {bad} accepted");
        }
    }
    // Something is accepted that is no sentence.
    for seed in 0..30 {
        // S ::= x L y; L ::= L I | I; I ::= a B d; B ::= b | a b
        let g = grammar(4, 5, &[(0, &[4, 1, 5]), (1, &[1, 2]), (1, &[2]), (2, &[6, 3, 8]), (3, &[7]), (3, &[6, 7])], seed);
        let mut r = Recognizer::new(&g);
        assert_eq!(read(&mut r, &[4, 6, 7, 8]), 4);
        r.begin_earleme();
        r.scan(t(&g, 7), 0);
        assert!(!r.end_earleme(), "seed {seed}");
    }
}
''')

bug("r06-part-either-way", "R06", REC,
"""        if let Some(trans) = binary_opt {
            let was_predicted""",
"""        if let (Some(trans), None) = (binary_opt, unary_opt) {
            let was_predicted""",
"a rule of four or more symbols the last of which may be empty, so that its part is both continued and complete",
"what follows after such a part is rejected",
r'''
use kit::*;
fn main() {
    for seed in 0..40 {
        // S ::= a b c D e?  with D possibly empty
        for rules in [&[(0usize, &[2usize, 3, 4, 1][..]), (1, &[][..]), (1, &[5][..])][..], &[(0, &[2, 3, 4, 1, 1]), (1, &[]), (1, &[5])]] {
            let g = grammar(2, 4, rules, seed);
            let mut r = Recognizer::new(&g);
            assert_eq!(read(&mut r, &[2, 3, 4]), 3, "seed {seed}");
            assert!(r.is_finished(), "seed {seed}");
            assert!(one(&mut r, 5, 0), "seed {seed}: rejected");
            assert!(r.is_finished(), "seed {seed}");
        }
    }
}
''')

bug("r06-bundled-depth", "R06", DG,
"""        // Prediction relation is transitive.
        self.prediction_matrix.transitive_closure();
""",
"""        // Prediction relation is transitive: squared three times it is complete.
        for _ in 0..3 {
            let base = self.prediction_matrix.clone();
            for (row, col) in (0..self.size.syms).flat_map(|r| (0..self.size.syms).map(move |c| (r, c))) {
                if base[(row, col)] {
                    for (dst, &src) in self.prediction_matrix[row].iter_blocks_mut().zip(base[col].iter_blocks()) {
                        *dst |= src;
                    }
                }
            }
        }
""",
"bundled tables of a grammar in which a terminal is reached over more than eight first symbols",
"terminals at the end of a long chain of first symbols are not predicted: valid input is rejected",
r'''
use kit::*;
fn main() {
    for depth in 1..40usize {
        // N0 ::= N1 x | y; N1 ::= N2 x | y; ...
        let mut rules: Vec<(usize, Vec<usize>)> = vec![];
        for i in 0..depth {
            rules.push((i, vec![i + 1, depth + 1]));
        }
        rules.push((depth, vec![depth + 2]));
        let rules: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
        let g = bundled(depth + 1, 2, &rules, depth as u64);
        let mut r = Recognizer::new(&g);
        let mut toks = vec![depth + 2];
        toks.extend(vec![depth + 1; depth]);
        assert_eq!(read(&mut r, &toks), toks.len(), "chain of {depth}");
        assert!(r.is_finished());
    }
}
''')

bug("r08-splits-together", "R08", REC,
"""        self.recognizer.forest.push_summand(completed_item);
""",
"""        self.recognizer.forest.push_summand(completed_item);
        // Other derivations by the same rule go along with it.
        while let Some(item) = self.recognizer.heap_peek() {
            if (item.origin, item.dot) != (completed_item.origin, completed_item.dot) {
                break;
            }
            self.recognizer.heap_pop();
            self.recognizer.forest.push_summand(item);
        }
""",
"accepting one and refusing another alternative of a fragment that are derivations by the same rule (with different splits)",
"a refused alternative is part of the result",
r'''
use kit::*;
fn main() {
    for seed in 0..20 {
        // S ::= S S | a; of the ways in which the whole input is split, only the first is let through.
        let g = grammar(1, 1, &[(0, &[0, 0]), (0, &[1])], seed);
        for n in 2..7 {
            let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            start(&mut r);
            for _ in 0..n {
                r.begin_earleme();
                r.scan(t(&g, 1), 0);
                while let Some(mut group) = r.next_sum() {
                    let mut some = false;
                    while let Some(item) = group.next_summand() {
                        if !some {
                            group.push_summand(item);
                            some = true;
                        }
                    }
                    group.complete_sum();
                }
                r.advance_after_completion();
            }
            let node = r.finished_node().unwrap();
            let v = texts(r.into_forest().evaluate(Write, node));
            // An ambiguous evaluation would have more leaves than the input has tokens.
            let leaves = v.iter().map(|x| x.matches("t").count()).sum::<usize>();
            assert_eq!((v.len(), leaves), (1, n), "seed {seed}: {n} tokens, {v:?}");
        }
    }
}
''')

bug("r09-first-set-kept", "R09", REC,
"""        if self.earleme() > new_earleme && new_earleme > 0 {
""",
"""        // The first sets are small, and dropping them is not worth it.
        if self.earleme() > new_earleme && new_earleme > 1 {
""",
"a long list at the top of the grammar, not inside of anything",
"nothing is ever dropped while a list at the top is read: memory grows with the input",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        // S ::= S I | I; I ::= a ; (ended by a terminator)
        let g = grammar(2, 2, &[(0, &[0, 1]), (0, &[1]), (1, &[2, 3])], seed);
        let mut r = Recognizer::new(&g);
        start(&mut r);
        for i in 0..4000 {
            assert!(one(&mut r, 2 + i % 2, 0));
            assert!(r.earleme() < 100, "seed {seed}: {} positions retained after {i} tokens", r.earleme());
        }
    }
}
''')

bug("r10-origin-byte", "R10", "gearley-recognizer/src/event.rs",
"""                    .map(|item| (trace0[item.dot as usize], item.origin as usize)),
""",
"""                    .map(|item| (trace0[item.dot as usize], item.origin as u8 as usize)),
""",
"a report at a position where more than 256 positions are retained",
"the start of a rule in progress is reported wrong",
r'''
use kit::*;
fn main() {
    // S ::= a S | b: right recursion retains every position.
    let g = grammar(1, 2, &[(0, &[1, 0]), (0, &[2])], 3);
    let mut r = Recognizer::new(&g);
    start(&mut r);
    for i in 0..600usize {
        assert!(one(&mut r, 1, 0));
        r.begin_earleme();
        let origins: Vec<usize> = r.trace().map(|x| x.1).collect();
        // The rule entered by this token.
        assert!(origins.contains(&(i + 1)), "after {i} tokens: {origins:?}");
        r.scan(t(&g, 1), 0);
        assert!(r.end_earleme());
        r.reset();
        start(&mut r);
        for _ in 0..=i {
            assert!(one(&mut r, 1, 0));
        }
        if i > 300 {
            break;
        }
    }
}
''')

bug("r11-busy", "R11", REC,
"""        let node = self.recognizer.forest.sum(self.lhs_sym, self.origin);
        self.begun = false;
        self.recognizer.complete(self.origin, self.lhs_sym, node);
        node
""",
"""        self.recognizer.busy = true;
        let node = self.recognizer.forest.sum(self.lhs_sym, self.origin);
        self.begun = false;
        self.recognizer.complete(self.origin, self.lhs_sym, node);
        self.recognizer.busy = false;
        node
""",
"a forest callback that fails while a fragment is being completed, then a reset",
"the recognizer never completes anything again",
PANIC_FOREST.replace("FOREST", "simple_bocage::Bocage").replace("simple_bocage::Bocage_BYTES", "FOREST_BYTES"),
more=[
(REC, """    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,
}
""", """    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,
    // Whether a fragment is being completed. There is one at a time.
    busy: bool,
}
"""),
(REC, """            forest,
            policy: PhantomData,
""", """            forest,
            busy: false,
            policy: PhantomData,
"""),
(REC, """        if let Some(ei) = self.heap_peek() {
            let lhs_sym""", """        if let Some(ei) = self.heap_peek().filter(|_| !self.busy) {
            let lhs_sym"""),
])

bug("f03-size-of-three-bytes", "F03", "compact-bocage/src/graph.rs",
"""        let l_len = ((head >> 3) & 0b11) + 1;
        let r_len = ((head >> 5) & 0b11) + 1;
        1 + l_len as u32 + r_len as u32
""",
"""        let lengths = [2, 3, 4, 5];
        let l_len = lengths[(head >> 3 & 0b11) as usize];
        let r_len = lengths[(head >> 5 & 0b01) as usize] - 1;
        l_len + r_len
""",
"a forest that has grown past 64 KiB before the parse that is evaluated",
"what follows a node is looked for in the wrong place, and evaluation goes astray",
r'''
use kit::*;
fn main() {
    let g = grammar(2, 3, &[(0, &[0, 2, 1]), (0, &[1]), (1, &[3]), (1, &[4, 0, 4])], 1);
    let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
    let toks = [3, 2, 4, 3, 2, 3, 4];
    let mut want = None;
    for round in 0..3000 {
        assert_eq!(read(&mut r, &toks), toks.len());
        if round == 0 || round == 2999 {
            let n = r.finished_node().unwrap();
            let forest = r.into_forest();
            let mut forest = forest;
            let v = texts(forest.evaluate(Write, n));
            match &want {
                None => want = Some(v),
                Some(w) => assert_eq!(*w, v, "after {round} sessions"),
            }
            r = Recognizer::with_forest(&g, forest);
        } else {
            r.reset();
        }
    }
}
''')

bug("f04-cleanup-late", "F04", "compact-bocage/src/traverse.rs",
"""        // println!("ROOT {:?}", root_node);
""",
"""        // Nodes that were added by an evaluation that did not get to its end are not needed any more.
        if let Some(len) = self.scratch_start.take() {
            self.graph.truncate(len);
        }
        self.scratch_start = Some(self.graph.len());
""",
"an evaluation interrupted by a failing action, further input, and then another evaluation",
"the nodes of the input read after the interruption are thrown away",
r'''
use kit::*;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
#[derive(Clone)]
struct Shared(Rc<RefCell<compact_bocage::Bocage>>);
impl Forest for Shared {
    type NodeRef = NodeHandle;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.0.borrow_mut().begin_sum()
    }
    fn push_summand(&mut self, item: Item<NodeHandle>) {
        self.0.borrow_mut().push_summand(item)
    }
    fn sum(&mut self, s: Symbol, o: u32) -> NodeHandle {
        self.0.borrow_mut().sum(s, o)
    }
    fn product(&mut self, l: NodeHandle, r: NodeHandle) -> NodeHandle {
        self.0.borrow_mut().product(l, r)
    }
    fn leaf(&mut self, s: Symbol, p: u32, v: u32) -> NodeHandle {
        self.0.borrow_mut().leaf(s, p, v)
    }
    fn nulling(&self, s: Symbol) -> NodeHandle {
        self.0.borrow().nulling(s)
    }
}
struct Flaky(Cell<i32>);
impl Evaluate for Flaky {
    type Elem = Text;
    fn leaf(&self, terminal: Symbol, values: u32) -> Text {
        self.0.set(self.0.get() - 1);
        if self.0.get() == 0 {
            panic!("action fails");
        }
        Write.leaf(terminal, values)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Text>) -> Text
    where
        Text: 'a,
    {
        Write.product(action, args)
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Text>) {
        Write.nulling(symbol, results)
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // S ::= S a | a
    let g = grammar(1, 1, &[(0, &[0, 1]), (0, &[1])], 0);
    let run = |fail: i32| {
        let f = Shared(Rc::new(RefCell::new(compact_bocage::Bocage::new(&g))));
        let mut r = Recognizer::with_forest(&g, f.clone());
        assert_eq!(read(&mut r, &[1, 1]), 2);
        if fail > 0 {
            let n = r.finished_node().unwrap();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.0.borrow_mut().evaluate(Flaky(Cell::new(fail)), n)));
        }
        assert!(one(&mut r, 1, 3));
        assert!(one(&mut r, 1, 4));
        let n = r.finished_node().unwrap();
        let v = texts(f.0.borrow_mut().evaluate(Flaky(Cell::new(-1)), n));
        v
    };
    let want = run(0);
    for k in 1..3 {
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(k)));
        assert_eq!(got.ok(), Some(want.clone()), "interrupted at leaf {k}");
    }
}
''', more=[
("compact-bocage/src/traverse.rs", """        work_stack[0]
            .results
""", """        if let Some(len) = self.scratch_start.take() {
            self.graph.truncate(len);
        }
        work_stack[0]
            .results
"""),
("compact-bocage/src/graph.rs", """    pub fn len(&self) -> u32 {
""", """    pub fn truncate(&mut self, len: u32) {
        self.vect.truncate(len as usize);
    }

    pub fn len(&self) -> u32 {
"""),
("compact-bocage/src/bocage.rs", """    pub(crate) nulling_limit: u32,
}
""", """    pub(crate) nulling_limit: u32,
    /// Where the nodes made by the evaluation begin.
    pub(crate) scratch_start: Option<u32>,
}
"""),
("compact-bocage/src/bocage.rs", """            num_summands: 0,
            nulling_limit: 0,
""", """            num_summands: 0,
            nulling_limit: 0,
            scratch_start: None,
"""),
])

bug("v01-empty-set-dropped", "V01", VEC,
"""        self.chart.extend(set);
        self.next_set();
""",
"""        let items = self.chart.len();
        self.chart.extend(set);
        if self.chart.len() > items {
            self.next_set();
        }
""",
"extending with a set that has no items",
"empty sets are left out, and all later ones have wrong numbers",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
fn main() {
    let mut v = vec2d::Vec2d::new();
    v.extend(vec![vec![1u32], vec![], vec![2, 3]]);
    assert_eq!(v.len(), 4);
    assert_eq!(v[0], [1]);
    assert_eq!(v[1], []);
    assert_eq!(v[2], [2, 3]);
    let w: vec2d::Vec2d<u32> = vec![vec![], vec![7]].into_iter().collect();
    assert_eq!(w[0], []);
    assert_eq!(w[1], [7]);
}
''', "rustc")

bug("p01-extend-in-two-passes", "P01", CP,
"""        for slice in product {
            self.push(slice);
        }
""",
"""        // First the factors, then where they begin.
        let old = self.ptrs.len();
        self.ranges.extend(product.map(Factor::new));
        self.ptrs.extend(self.ranges[old..].iter().map(|factor| &factor.slice[0]));
""",
"an iterator of factors that fails midway, after which another factor is added",
"factors and pointers get out of step: combinations are missing or mixed",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (a, b, c) = ([1u32, 2, 3], [10u32, 20], [100u32, 200]);
    let mut p = cp::CartesianProduct::new();
    let fs: [&[u32]; 2] = [&a, &b];
    let mut n = 0;
    let it = fs.iter().copied().map(|f| {
        n += 1;
        if n == 2 {
            panic!("the caller's iterator fails");
        }
        f
    });
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.extend(it)));
    p.push(&c);
    let mut got = vec![];
    for _ in 0..20 {
        got.push(p.as_slice().iter().map(|x| **x).collect::<Vec<_>>());
        if !p.advance() {
            break;
        }
    }
    let want: Vec<Vec<u32>> = [100, 200].iter().flat_map(|y| [1, 2, 3].map(|x| vec![x, *y])).collect();
    assert_eq!(got, want);
}
''', "rustc")

bug("v02-open-set-sealed", "V02", VEC,
"""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(
    feature = "miniserde",
""",
"""/// A list of sets.
#[cfg(feature = "serde")]
impl<I: serde::Serialize> serde::Serialize for Vec2d<I> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let sealed = (0..self.len() - 1).map(|i| &self[i]);
        let open = if self.last().is_empty() { None } else { Some(self.last()) };
        serializer.collect_seq(sealed.chain(open))
    }
}

#[cfg(feature = "serde")]
impl<'de, I: serde::Deserialize<'de>> serde::Deserialize<'de> for Vec2d<I> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let sets = <Vec<Vec<I>> as serde::Deserialize>::deserialize(deserializer)?;
        Ok(sets.into_iter().collect())
    }
}

#[cfg_attr(
    feature = "miniserde",
""",
"saving with serde while items are in the open set",
"a restored container has the open items in a sealed set",
r'''
use gearley_vec2d::Vec2d;
fn main() {
    let mut v: Vec2d<u32> = Vec2d::new();
    v.extend(vec![vec![1, 2], vec![]]);
    for open in 0..3 {
        let image = serde_json::to_string(&v).unwrap();
        let w: Vec2d<u32> = serde_json::from_str(&image).unwrap();
        assert_eq!(w.len(), v.len(), "{open} open items: {image}");
        assert_eq!(w.last(), v.last(), "{open} open items: {image}");
        v.push_item(open);
    }
}
''', {"Cargo.toml": """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
gearley-vec2d = { path = "/repo/gearley-vec2d", features = ["serde", "miniserde"] }
serde_json = "1.0"
"""})
