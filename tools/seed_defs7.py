COUNTING = r'''
use gearley_forest::{item::Item, Forest};
use gearley_recognizer::lookahead::Lookahead;
use kit::*;
use std::{cell::Cell, rc::Rc};
struct Sums(Rc<Cell<usize>>);
impl Forest<cfg_symbol::Symbol> for Sums {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<u32>) {}
    fn sum(&mut self, _: cfg_symbol::Symbol, _: u32) -> u32 {
        self.0.set(self.0.get() + 1);
        0
    }
    fn product(&mut self, _: u32, _: u32) -> u32 {
        0
    }
    fn leaf(&mut self, _: cfg_symbol::Symbol, _: u32, _: u32) -> u32 {
        0
    }
    fn nulling(&self, _: cfg_symbol::Symbol) -> u32 {
        0
    }
}
'''

bug("r13-start-wanted", "R13", REC,
"""                    if lhs.usize() >= self.grammar.num_syms() {
                        return true;
                    }
""",
"""                    // The whole parse is always of interest.
                    if lhs.usize() >= self.grammar.num_syms() || Some(lhs) == self.grammar.to_internal(self.grammar.externalized_start_sym()) {
                        return true;
                    }
""",
"a start symbol that recurs at its right end and ends with a list, and a long enough input under hints",
"every prefix is completed back to the start, so the work is quadratic",
COUNTING + r'''
fn main() {
    // S ::= a S | b T; T ::= T d | d
    let g = grammar(2, 3, &[(0, &[2, 0]), (0, &[3, 1]), (1, &[1, 4]), (1, &[4])], 0);
    let n = Rc::new(Cell::new(0));
    let mut r = Recognizer::with_forest(&g, Sums(n.clone()));
    start(&mut r);
    let kind = |i| if i < 100 { 2 } else if i == 100 { 3 } else { 4 };
    for i in 0..200 {
        let hint = t(&g, kind(i + 1));
        r.lookahead().set_hint(hint);
        assert!(one(&mut r, kind(i), i));
    }
    assert!(n.get() < 1000, "{}", n.get());
}
''')

bug("r13-hint-one-group", "R13", REC,
"""        self.begun = false;
        self.recognizer.complete(self.origin, self.lhs_sym, node);
""",
"""        self.begun = false;
        self.recognizer.complete(self.origin, self.lhs_sym, node);
        // A hint is good for what it was set for.
        self.recognizer.lookahead.clear_hint();
""",
"a position where more than one completion is to be pruned",
"completions after the first at a position ignore the hint",
COUNTING + r'''
fn main() {
    // S ::= a S | E; E ::= E d T | T; T ::= b
    let g = grammar(3, 3, &[(0, &[3, 0]), (0, &[1]), (1, &[1, 5, 2]), (1, &[2]), (2, &[4])], 0);
    let n = Rc::new(Cell::new(0));
    let mut r = Recognizer::with_forest(&g, Sums(n.clone()));
    start(&mut r);
    for i in 0..100 {
        let hint = t(&g, if i < 99 { 3 } else { 4 });
        r.lookahead().set_hint(hint);
        assert!(one(&mut r, 3, i));
    }
    for i in 0..100 {
        let hint = t(&g, 5 - i as usize % 2);
        r.lookahead().set_hint(hint);
        assert!(one(&mut r, 4 + i as usize % 2, i));
    }
    assert!(n.get() < 1000, "{}", n.get());
}
''')

bug("r13-refused-drops-hint", "R13", REC,
"""        if self.is_exhausted() {
            false
        } else {
            trace!("recognizer.completions_after_scan: {:?}", self.complete);""",
"""        if self.is_exhausted() {
            // Nothing to be completed.
            self.lookahead.clear_hint();
            false
        } else {
            trace!("recognizer.completions_after_scan: {:?}", self.complete);""",
"a token refused between setting the hint and offering the right token",
"the hint is lost, so nothing is pruned at that position",
COUNTING + r'''
fn main() {
    // S ::= a S | a | b
    let g = grammar(1, 2, &[(0, &[1, 0]), (0, &[1]), (0, &[2])], 0);
    let n = Rc::new(Cell::new(0));
    let mut r = Recognizer::with_forest(&g, Sums(n.clone()));
    start(&mut r);
    for i in 0..100 {
        r.begin_earleme();
        let hint = t(&g, 1);
        r.lookahead().set_hint(hint);
        // No symbol of the input.
        r.scan(sym(g.sof_num()), 7);
        assert!(!r.end_earleme());
        let a = t(&g, 1);
        r.scan(a, i);
        assert!(r.end_earleme());
    }
    assert!(n.get() < 1000, "{}", n.get());
}
''')

bug("r13-follow-of-last", "R13", DG,
"""                if before.usize() < syms && after_sym.usize() < syms {
                    follow_matrix.set(before.usize(), after_sym.usize(), true);
                }
""",
"""                if before.usize() < syms && after_sym.usize() < syms {
                    follow_matrix.set(before.usize(), after_sym.usize(), true);
                    // What comes after a symbol may be anything that the next one starts with, on to its end.
                    for sym in 0..syms {
                        if first_matrix[after_sym.usize()].get(sym) || first_matrix[before.usize()].get(sym) {
                            follow_matrix.set(before.usize(), sym, true);
                        }
                    }
                }
""",
"the bundled grammar preparation and a rule that recurs at its right end",
"the lookahead sets are so wide that hints prune nothing",
r'''
use gearley_grammar::Grammar;
use kit::*;
fn main() {
    // S ::= a S | a
    let g = bundled(1, 1, &[(0, &[1, 0]), (0, &[1])], 0);
    let set = g.lhs_lr_set(sym(g.start_num()));
    assert!(!set[t(&g, 1).usize()]);
    assert!(set[g.eof_num()]);
}
''')

bug("f06-low-bytes", "F06", "simple-bocage/src/bocage.rs",
"""        self.summand_count += 1;
    }
""",
"""        self.summand_count += 1;
        // Alternatives are kept in the order of their nodes, which are near each other.
        let mut at = self.graph.len() - 1;
        for _ in 1..self.summand_count {
            match (self.graph[at - 1], self.graph[at]) {
                (Node::Product { factors: a, .. }, Node::Product { factors: b, .. }) if (b.0 as u8) < a.0 as u8 => {
                    self.graph.swap(at - 1, at);
                    at -= 1;
                }
                _ => break,
            }
        }
    }
""",
"a forest in which two alternatives lie on both sides of a multiple of 256 nodes",
"the order of the values depends on what the forest held before",
r'''
use kit::*;
use simple_bocage::Bocage;
fn main() {
    // S ::= S S | a
    let g = grammar(1, 1, &[(0, &[0, 0]), (0, &[1])], 0);
    let mut all = vec![];
    for before in 0..300 {
        let mut b = Bocage::new(&g);
        for _ in 0..before {
            b.leaf(sym(1), 0, 0);
        }
        let mut r = Recognizer::with_forest(&g, b);
        assert_eq!(read(&mut r, &[1; 5]), 5);
        let node = r.finished_node().unwrap();
        let v: Vec<String> = r.into_forest().evaluate(Write, node).into_iter().map(|t| t.0).collect();
        all.push(v);
    }
    assert!(all.iter().all(|v| *v == all[0]));
}
''')

bug("f06-sorted-growth", "F06", "gearley-recognizer/src/binary_heap.rs",
"""        let old_indices_len = self.0.len();
        self.0.push(item);
""",
"""        let old_indices_len = self.0.len();
        if old_indices_len > 0 && old_indices_len == self.0.capacity() {
            // All of it is moved anyway, and a sorted heap is quick to take from.
            self.0.reserve(old_indices_len);
            self.0.sort_by(|a, b| b.partial_cmp(a).unwrap());
        }
        self.0.push(item);
""",
"a token that completes more items than ever before, some of them alternatives of one symbol",
"the order of the values is another one when the recognizer has been used before",
r'''
use kit::*;
use simple_bocage::Bocage;
fn main() {
    // S ::= L M; M ::= L R | R L; L ::= L a | a; R ::= a R | a
    let g = grammar(4, 1, &[(0, &[1, 3]), (3, &[1, 2]), (3, &[2, 1]), (1, &[1, 4]), (1, &[4]), (2, &[4, 2]), (2, &[4])], 0);
    for n in 3..40 {
        for limit in [0, 8192, 3_000_000] {
            let toks = vec![4; n];
            let fresh = {
                let mut r = Recognizer::with_forest_and_policy(&g, Bocage::new(&g), DefaultPerfHint::new(limit));
                assert_eq!(read(&mut r, &toks), n);
                let node = r.finished_node().unwrap();
                r.into_forest().evaluate(Write, node).into_iter().map(|t| t.0).collect::<Vec<_>>()
            };
            let used = {
                let mut r = Recognizer::with_forest_and_policy(&g, Bocage::new(&g), DefaultPerfHint::new(limit));
                read(&mut r, &[4; 100]);
                r.reset();
                assert_eq!(read(&mut r, &toks), n);
                let node = r.finished_node().unwrap();
                r.into_forest().evaluate(Write, node).into_iter().map(|t| t.0).collect::<Vec<_>>()
            };
            assert!(fresh == used, "{n} {limit}");
        }
    }
}
''')

_V02_DERIVE = """#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(
    feature = "miniserde",
"""
_V02_CARGO = {"Cargo.toml": """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
gearley-vec2d = { path = "/repo/gearley-vec2d", features = ["serde", "miniserde"] }
serde_json = "1.0"
bincode = "1.3"
"""}
bug("v02-skip-empty", "V02", VEC, _V02_DERIVE,
"""#[cfg(feature = "serde")]
impl<I: serde::Serialize> serde::Serialize for Vec2d<I> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let fields = if self.chart.is_empty() { 1 } else { 2 };
        let mut image = serializer.serialize_struct("Vec2d", fields)?;
        if !self.chart.is_empty() {
            image.serialize_field("chart", &self.chart)?;
        }
        image.serialize_field("indices", &self.indices)?;
        image.end()
    }
}

#[cfg(feature = "serde")]
impl<'de, I: serde::Deserialize<'de>> serde::Deserialize<'de> for Vec2d<I> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        #[derive(serde::Deserialize)]
        struct Image<I> {
            chart: Option<Vec<I>>,
            indices: Vec<usize>,
        }
        let image = Image::deserialize(deserializer)?;
        Ok(Self {
            chart: image.chart.unwrap_or_default(),
            indices: image.indices,
        })
    }
}

#[cfg_attr(
    feature = "miniserde",
""",
"a format that does not name its fields",
"images in binary formats cannot be restored",
r'''
use gearley_vec2d::Vec2d;
fn main() {
    for sets in [vec![], vec![vec![]], vec![vec![1u32, 2], vec![], vec![3]]] {
        let mut v: Vec2d<u32> = Vec2d::new();
        v.extend(sets.clone());
        let text = serde_json::to_string(&v).unwrap();
        let image = bincode::serialize(&v).unwrap();
        for w in [serde_json::from_str::<Vec2d<u32>>(&text).unwrap(), bincode::deserialize::<Vec2d<u32>>(&image).unwrap()] {
            assert_eq!(w.len(), v.len());
            assert_eq!(w.item_count(), v.item_count());
            for i in 0..v.len() - 1 {
                assert_eq!(w[i], v[i]);
            }
        }
    }
}
''', _V02_CARGO)

bug("v02-narrow", "V02", VEC, _V02_DERIVE,
"""/// Boundaries are saved as the lengths of the sets, which are small numbers.
#[cfg(feature = "serde")]
impl<I: serde::Serialize> serde::Serialize for Vec2d<I> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let lengths: Vec<u16> = self.indices.windows(2).map(|w| (w[1] - w[0]) as u16).collect();
        let mut image = serializer.serialize_struct("Vec2d", 2)?;
        image.serialize_field("chart", &self.chart)?;
        image.serialize_field("lengths", &lengths)?;
        image.end()
    }
}

#[cfg(feature = "serde")]
impl<'de, I: serde::Deserialize<'de>> serde::Deserialize<'de> for Vec2d<I> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        #[derive(serde::Deserialize)]
        struct Image<I> {
            chart: Vec<I>,
            lengths: Vec<u16>,
        }
        let image = Image::deserialize(deserializer)?;
        let mut end = 0;
        let mut indices = vec![0];
        for length in image.lengths {
            end += length as usize;
            indices.push(end);
        }
        if end > image.chart.len() {
            return Err(serde::de::Error::custom("boundaries beyond the chart"));
        }
        Ok(Self { chart: image.chart, indices })
    }
}

#[cfg_attr(
    feature = "miniserde",
""",
"saving a container that has a set of more than 65535 items",
"a restored container has a huge set cut short",
r'''
use gearley_vec2d::Vec2d;
fn main() {
    for n in [0u32, 1, 200, 300, 65535, 65536, 70000] {
        let mut v: Vec2d<u32> = Vec2d::new();
        v.extend(vec![vec![1], (0..n).collect::<Vec<_>>(), vec![3, 4]]);
        v.push_item(5);
        let w: Vec2d<u32> = serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap();
        assert_eq!(w.len(), v.len());
        for i in 0..v.len() - 1 {
            assert_eq!(w[i], v[i], "{n}");
        }
        assert_eq!(w.last(), v.last());
    }
}
''', _V02_CARGO)

bug("f05-null-once", "F05", "simple-bocage/src/traverse.rs",
"""                    let start = results.len();
                    eval.nulling(symbol, &mut results);
                    work_stack[work.parent].receive_results(start..results.len());
""",
"""                    eval.nulling(symbol, &mut results);
                    work_stack[work.parent].receive_results(results.len() - 1..results.len());
""",
"an action for an empty symbol that gives several values, or none",
"only the last of several values is used, and another node's value in place of none",
r'''
use kit::*;
struct Several(usize);
impl Evaluate for Several {
    type Elem = Text;
    fn leaf(&self, terminal: Symbol, value: u32) -> Text {
        Write.leaf(terminal, value)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Text>) -> Text {
        Write.product(action, args)
    }
    fn nulling<'r>(&self, _: Symbol, results: &'r mut Vec<Text>) {
        results.extend((0..self.0).map(|i| Text(format!("n{i}"))));
    }
}
fn main() {
    // S ::= N a N; N ::= | b
    for seed in 0..4 {
        let g = grammar(2, 2, &[(0, &[1, 2, 1]), (1, &[]), (1, &[3])], seed);
        for n in 0..4 {
            let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            assert_eq!(read(&mut r, &[2]), 1);
            let node = r.finished_node().unwrap();
            let mut v = texts(r.into_forest().evaluate(Several(n), node));
            v.sort();
            v.dedup();
            assert_eq!(v.len(), n * n, "{v:?}");
        }
    }
}
''')
