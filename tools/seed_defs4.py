# ------------------------------------------------------------------------------------------------ fourth set
bug("v01-nothing-to-move", "V01", VEC,
"""        let new_medial_start = self.indices[new_len];
""",
"""        let new_medial_start = self.indices[new_len];
        if self.indices.last() == Some(&new_medial_start) {
            // Nothing to move.
            return;
        }
""",
"truncating when every removed set is empty",
"the empty sets stay, and all later ones have wrong numbers",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
fn main() {
    let mut v = vec2d::Vec2d::new();
    v.extend(vec![vec![1u32, 2], vec![], vec![]]);
    v.push_item(7);
    v.truncate(1);
    assert_eq!(v.len(), 2);
    assert_eq!(v.last(), [7]);
    v.next_set();
    assert_eq!(v[0], [1, 2]);
    assert_eq!(v[1], [7]);
}
''', "rustc")

bug("v01-clone-in-place", "V01", VEC,
"""#[derive(Clone, Debug)]
pub struct Vec2d<I> {
    chart: Vec<I>,
    indices: Vec<usize>,
}
""",
"""#[derive(Debug)]
pub struct Vec2d<I> {
    chart: Vec<I>,
    indices: Vec<usize>,
}

impl<I: Clone> Clone for Vec2d<I> {
    fn clone(&self) -> Self {
        Self {
            chart: self.chart.clone(),
            indices: self.indices.clone(),
        }
    }

    /// Reuses the memory.
    fn clone_from(&mut self, source: &Self) {
        self.indices.clone_from(&source.indices);
        self.chart.clone_from(&source.chart);
    }
}
""",
"overwriting a container with clone_from, where the clone of some item fails",
"the sealed sets of the overwritten container are altered although nothing was copied completely",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
use std::cell::Cell;
thread_local!(static LEFT: Cell<i32> = Cell::new(i32::MAX));
#[derive(PartialEq, Debug)]
struct X(u32);
impl Clone for X {
    fn clone(&self) -> X {
        LEFT.with(|l| l.set(l.get() - 1));
        if LEFT.with(|l| l.get()) < 0 {
            panic!("no clone");
        }
        X(self.0)
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for k in 0..6 {
        LEFT.with(|l| l.set(i32::MAX));
        let mut a = vec2d::Vec2d::new();
        a.extend(vec![vec![X(1), X(2)], vec![X(3)]]);
        let mut b = vec2d::Vec2d::new();
        b.extend(vec![vec![X(10)], vec![X(11), X(12), X(13)], vec![X(14)]]);
        b.push_item(X(15));
        LEFT.with(|l| l.set(k));
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.clone_from(&b))).is_ok();
        LEFT.with(|l| l.set(i32::MAX));
        if ok {
            assert_eq!(a[1], b[1]);
        } else {
            assert_eq!(a.len(), 3, "{k} clones");
            assert_eq!(a[0], [X(1), X(2)], "{k} clones");
            assert_eq!(a[1], [X(3)], "{k} clones");
        }
    }
}
''', "rustc")

V02_TOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
gearley-vec2d = { path = "/repo/gearley-vec2d", features = ["serde", "miniserde"] }
serde_json = "1.0"
bincode = "1.3"
"""

bug("v02-lenient-lists", "V02", VEC,
"""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(
    feature = "miniserde",
""",
"""#[cfg(feature = "serde")]
mod restore {
    use serde::de::{Deserialize, Deserializer, SeqAccess, Visitor};
    use std::{fmt, marker::PhantomData};

    /// A list that is read without trusting the length that it claims to have.
    struct List<T>(Vec<T>);

    impl<'de, T: Deserialize<'de>> Deserialize<'de> for List<T> {
        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
            struct Items<T>(PhantomData<T>);
            impl<'de, T: Deserialize<'de>> Visitor<'de> for Items<T> {
                type Value = List<T>;
                fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str("a list")
                }
                fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<List<T>, A::Error> {
                    let mut result = vec![];
                    while let Ok(Some(item)) = seq.next_element() {
                        result.push(item);
                    }
                    Ok(List(result))
                }
            }
            deserializer.deserialize_seq(Items(PhantomData))
        }
    }

    #[derive(serde::Deserialize)]
    #[serde(bound = "I: Deserialize<'de>")]
    struct Vec2d<I> {
        chart: List<I>,
        indices: List<usize>,
    }

    impl<'de, I: Deserialize<'de>> Deserialize<'de> for super::Vec2d<I> {
        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
            let parts = Vec2d::deserialize(deserializer)?;
            Ok(super::Vec2d {
                chart: parts.chart.0,
                indices: parts.indices.0,
            })
        }
    }
}

#[cfg_attr(feature = "serde", derive(serde::Serialize))]
#[cfg_attr(
    feature = "miniserde",
""",
"a torn image in a binary format, cut within its last list",
"an image cut within its last list is accepted",
r'''
use gearley_vec2d::Vec2d;
fn main() {
    let mut v: Vec2d<u32> = Vec2d::new();
    v.extend(vec![vec![1, 2], vec![], vec![3]]);
    let image = bincode::serialize(&v).unwrap();
    assert!(bincode::deserialize::<Vec2d<u32>>(&image).is_ok());
    for cut in 0..image.len() {
        assert!(bincode::deserialize::<Vec2d<u32>>(&image[..cut]).is_err(), "cut at {cut} of {}", image.len());
    }
}
''', {"Cargo.toml": V02_TOML})

bug("p01-leading-singles", "P01", CP,
"""pub struct CartesianProduct<'a, V: 'a> {
    ptrs: Vec<&'a V>,
    ranges: Vec<Factor<'a, V>>,
}
""",
"""pub struct CartesianProduct<'a, V: 'a> {
    ptrs: Vec<&'a V>,
    ranges: Vec<Factor<'a, V>>,
    // How many factors at the beginning have only one element.
    singles: usize,
}
""",
"an enumeration that begins with factors of one element, and then a clear and factors of more elements",
"after the clear, the first factors are never advanced",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    let (one, a, b) = ([9u32], [1u32, 2, 3], [10u32, 20]);
    let mut p = cp::CartesianProduct::new();
    for round in 0..3 {
        p.clear();
        if round == 1 {
            p.push(&one);
        }
        p.push(&a);
        p.push(&b);
        let mut n = 1;
        while p.advance() {
            n += 1;
        }
        assert_eq!(n, 6, "round {round}");
    }
}
''', "rustc", more=[
(CP, """            ptrs: Vec::with_capacity(8),
""", """            singles: 0,
            ptrs: Vec::with_capacity(8),
"""),
(CP, """    pub fn push(&mut self, slice: &'a [V]) {
        self.ranges.push(Factor::new(slice));
""", """    pub fn push(&mut self, slice: &'a [V]) {
        self.ranges.push(Factor::new(slice));
        if slice.len() == 1 && self.singles == self.ptrs.len() {
            self.singles += 1;
        }
"""),
(CP, """        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {
""", """        // A factor of one element is always at its end.
        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).skip(self.singles) {
"""),
])

bug("p01-empty-added", "P01", CP,
"""    pub fn push(&mut self, slice: &'a [V]) {
        self.ranges.push(Factor::new(slice));
""",
"""    pub fn push(&mut self, slice: &'a [V]) {
        self.ranges.push(Factor { slice, index: 0 });
""",
"an empty factor that is refused, after which other factors are added",
"the refused factor stays: pointers and factors get out of step",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (a, b) = ([1u32, 2, 3], [10u32, 20]);
    let mut p = cp::CartesianProduct::new();
    p.push(&a);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.push(&[]))).is_err());
    p.push(&b);
    let mut n = 1;
    while std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.advance())).unwrap() {
        n += 1;
        assert!(n < 100);
    }
    assert_eq!(n, 6);
}
''', "rustc")

bug("r01-nothing-to-reset", "R01", REC,
"""        // Remove items.
        self.medial.clear();
""",
"""        if self.medial.len() == 1 && self.is_exhausted() {
            // Nothing was read yet.
            return;
        }
        // Remove items.
        self.medial.clear();
""",
"a lookahead hint given before the first position of a session, and then a reset",
"the hint is still there after the reset",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        // S ::= a b
        let g = grammar(1, 2, &[(0, &[1, 2])], seed);
        let mut r = Recognizer::new(&g);
        r.lookahead().set_hint(t(&g, 2));
        r.reset();
        r.begin_earleme();
        r.scan(sym(g.sof_num()), 0);
        assert!(r.end_earleme(), "seed {seed}: a hint from before the reset is used");
        assert!(one(&mut r, 1, 0));
        assert!(one(&mut r, 2, 0));
        assert!(r.is_finished());
    }
}
''')

bug("r05-leaf-of-another", "R05", "simple-bocage/src/bocage.rs",
"""        let result = NodeHandle(self.graph.len() as u32);
        self.graph.push(Node::Leaf {
            symbol: token,
            values: value,
        });
        result
""",
"""        // The same token may be read in several ways at one place.
        thread_local!(static LAST: std::cell::Cell<(u32, u32, u32, u32)> = const { std::cell::Cell::new((0, 0, 0, 0)) });
        let (last_token, last_pos, last_value, last_node) = LAST.get();
        if (token.usize() as u32, _pos, value) == (last_token, last_pos, last_value)
            && last_node + 1 == self.graph.len() as u32
        {
            return NodeHandle(last_node);
        }
        let result = NodeHandle(self.graph.len() as u32);
        self.graph.push(Node::Leaf {
            symbol: token,
            values: value,
        });
        LAST.set((token.usize() as u32, _pos, value, result.0));
        result
""",
"two sessions with bundled forests in one thread, one of which is exactly one node ahead of the other when both read the same token with the same value at the same place",
"a session takes another session's leaf for its own",
r'''
use kit::*;
fn main() {
    for seed in 0..20 {
        // S ::= a b b | b b
        let g = grammar(1, 2, &[(0, &[1, 2, 2]), (0, &[2, 2, 2])], seed);
        let alone = |toks: &[usize]| {
            let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            assert_eq!(read(&mut r, toks), 3);
            let n = r.finished_node().unwrap();
            texts(r.into_forest().evaluate(Write, n))
        };
        let want = [alone(&[1, 2, 2]), alone(&[2, 2, 2])];
        // A is offered more tokens at its first place, so that its forest has more nodes.
        for gap in 0..4 {
            let mut a = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            let mut b = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
            start(&mut a);
            start(&mut b);
            a.begin_earleme();
            for _ in 0..gap {
                // Not acceptable here.
                a.scan(sym(g.sof_num()), 0);
            }
            a.scan(t(&g, 1), 1);
            assert!(a.end_earleme());
            assert!(one(&mut b, 2, 1));
            for v in 2..4 {
                assert!(one(&mut b, 2, v));
                assert!(one(&mut a, 2, v));
            }
            let (na, nb) = (a.finished_node().unwrap(), b.finished_node().unwrap());
            let ga = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || texts(a.into_forest().evaluate(Write, na))));
            let gb = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || texts(b.into_forest().evaluate(Write, nb))));
            assert_eq!(ga.ok().as_ref(), Some(&want[0]), "seed {seed} gap {gap}");
            assert_eq!(gb.ok().as_ref(), Some(&want[1]), "seed {seed} gap {gap}");
        }
    }
}
''')

bug("r06-token-read-twice", "R06", REC,
"""        let value_cp = value.clone();
""",
"""        if std::mem::replace(&mut self.last_scan, Some((earleme, symbol, value))) == Some((earleme, symbol, value)) {
            // Read twice.
            return;
        }
        let value_cp = value.clone();
""",
"a left-recursive list, compacted after every item, of equal tokens with equal values",
"at a place that has the number of an earlier, removed one, the same token is taken for a repetition and ignored",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        // S ::= S I | I; I ::= a
        let g = grammar(2, 1, &[(0, &[0, 1]), (0, &[1]), (1, &[2])], seed);
        let mut r = Recognizer::new(&g);
        start(&mut r);
        for i in 0..10 {
            assert!(one(&mut r, 2, 7), "seed {seed}: token {i} is rejected");
            assert!(r.is_finished());
        }
    }
}
''', more=[
(REC, """    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,
}
""", """    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,
    // What was read last.
    last_scan: Option<(Origin, Symbol, u32)>,
}
"""),
(REC, """            grammar,
            forest,
            policy: PhantomData,
        };
""", """            grammar,
            forest,
            policy: PhantomData,
            last_scan: None,
        };
"""),
])

bug("r08-dropped-completes", "R08", REC,
"""impl<'r, F, G, P> CompleteGroup<'r, F, G, P>
where
    F: Forest,
    G: Grammar,
    P: PerfHint,
{
    /// Completes all items.
""",
"""impl<'r, F, G, P> Drop for CompleteGroup<'r, F, G, P>
where
    F: Forest,
    G: Grammar,
    P: PerfHint,
{
    fn drop(&mut self) {
        // A sum which was begun must be ended.
        if self.begun && !std::thread::panicking() {
            self.complete_sum();
        }
    }
}

impl<'r, F, G, P> CompleteGroup<'r, F, G, P>
where
    F: Forest,
    G: Grammar,
    P: PerfHint,
{
    /// Completes all items.
""",
"completing by hand, taking an alternative of a fragment and then abandoning the fragment",
"the abandoned fragment is completed all the same",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        // S ::= X b | a c; X ::= a
        let g = grammar(2, 3, &[(0, &[1, 3]), (0, &[2, 4]), (1, &[2])], seed);
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        r.scan(t(&g, 2), 0);
        while let Some(mut sum) = r.next_sum() {
            while let Some(item) = sum.next_summand() {
                sum.push_summand(item);
            }
            // Refused.
        }
        r.advance_after_completion();
        assert!(!one(&mut r, 3, 0), "seed {seed}: needs the refused fragment");
        r.scan(t(&g, 4), 0);
        assert!(r.end_earleme());
        assert!(r.is_finished());
    }
}
''')

bug("r09-rows-kept-on-reset", "R09", REC,
"""        self.predicted.truncate(1);
        self.predicted[0].clear();
        self.predicted[0].predict(
            self.grammar.start_sym(),
""",
"""        self.predicted[0].clear();
        self.predicted[0].predict(
            self.grammar.start_sym(),
""",
"very many resets, each after a few positions of which none was removed",
"every session leaves its rows of predictions behind, so that memory grows with the number of resets",
r'''
use kit::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct Count;
static USED: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        USED.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    // S ::= ( S ) | x
    let g = grammar(1, 3, &[(0, &[1, 0, 2]), (0, &[3])], 0);
    let mut r = Recognizer::new(&g);
    let mut early = 0;
    for i in 0..20_000 {
        assert_eq!(read(&mut r, &[1, 1, 1, 1]), 4);
        r.reset();
        if i == 500 {
            early = USED.load(Relaxed);
        }
    }
    let more = USED.load(Relaxed) - early;
    assert!(more < 4096, "{more} more bytes after all the resets");
}
''', more=[
(REC, """        self.predicted.grow(1, false);
""", """        self.predicted.grow(1, false);
        // The row may have been used before.
        let next = self.earleme() + 1;
        self.predicted[next].clear();
"""),
])

bug("r11-predictions-lent", "R11", REC,
"""        let node = self.forest.leaf(symbol, earleme + 1, value);
""",
"""        // What is not predicted needs no leaf.
        let predicted = std::mem::replace(&mut self.predicted, BitMatrix::new(0, 0));
        if !predicted[earleme as usize].get(symbol.usize()) {
            self.predicted = predicted;
            return;
        }
        let node = self.forest.leaf(symbol, earleme + 1, value);
        self.predicted = predicted;
""",
"a forest that fails while it makes a leaf",
"the predictions are gone, and reset fails, too",
r'''
use kit::*;
struct Fails(bool);
impl Forest for Fails {
    type NodeRef = ();
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: gearley_forest::item::Item<()>) {}
    fn sum(&mut self, _: Symbol, _: u32) {}
    fn product(&mut self, _: (), _: ()) {}
    fn leaf(&mut self, _: Symbol, pos: u32, _: u32) {
        if pos == 2 && std::mem::take(&mut self.0) {
            panic!("the forest fails");
        }
    }
    fn nulling(&self, _: Symbol) {}
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let g = grammar(1, 2, &[(0, &[1, 2])], 0);
    let mut r = Recognizer::with_forest(&g, Fails(true));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read(&mut r, &[1, 2]))).is_err());
    let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        r.reset();
        read(&mut r, &[1, 2]) == 2 && r.is_finished()
    }));
    assert!(matches!(again, Ok(true)), "not usable after the reset");
}
''')

bug("f01-leaf-used-again", "F01", REC,
"""        let node = self.forest.leaf(symbol, earleme + 1, value);
""",
"""        let node = match self.last_leaf {
            // The same leaf.
            Some((s, v, at, node)) if (s, v) == (symbol, value) && at + 1 == self.medial.item_count() => node,
            _ => self.forest.leaf(symbol, earleme + 1, value),
        };
        self.last_leaf = Some((symbol, value, self.medial.item_count(), node));
""",
"equal tokens with equal values at two neighbouring places, where the first one leaves exactly one item",
"the leaf of the first place stands for the token of the second one, too",
r'''
use kit::*;
#[derive(Default)]
struct Spans(Vec<(u32, u32)>, u32);
impl Forest for Spans {
    type NodeRef = usize;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) {
        self.0.push((u32::MAX, 0));
    }
    fn push_summand(&mut self, i: gearley_forest::item::Item<usize>) {
        let n = self.0.len() - 1;
        self.0[n] = self.0[i.node];
    }
    fn sum(&mut self, _: Symbol, _: u32) -> usize {
        self.0.len() - 1
    }
    fn product(&mut self, l: usize, r: usize) -> usize {
        let (l, r) = (self.0[l], self.0[r]);
        assert!(l.1 + 1 == r.0, "parts do not meet: {l:?} {r:?}");
        self.0.push((l.0, r.1));
        self.0.len() - 1
    }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> usize {
        self.1 += 1;
        self.0.push((self.1, self.1));
        self.0.len() - 1
    }
    fn nulling(&self, _: Symbol) -> usize {
        0
    }
}
fn main() {
    for seed in 0..10 {
        // S ::= a a a a | b
        let g = grammar(1, 2, &[(0, &[1, 1, 1, 1]), (0, &[2])], seed);
        let mut r = Recognizer::with_forest(&g, Spans::default());
        start(&mut r);
        for _ in 0..4 {
            assert!(one(&mut r, 1, 5));
        }
        assert!(r.is_finished());
    }
}
''', more=[
(REC, """    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,
}
""", """    pub(crate) complete: BinaryHeap<Item<F::NodeRef>>,
    // The leaf made last.
    last_leaf: Option<(Symbol, u32, usize, F::NodeRef)>,
}
"""),
(REC, """            grammar,
            forest,
            policy: PhantomData,
        };
""", """            grammar,
            forest,
            policy: PhantomData,
            last_leaf: None,
        };
"""),
])

bug("f02-small-capacity", "F02", "simple-bocage/src/bocage.rs",
"""                .take(nulling_leaf_count + 1)
                .map(|symbol| Node::NullingLeaf { symbol }),
""",
"""                .take((nulling_leaf_count + 1).min(self.graph.capacity()))
                .map(|symbol| Node::NullingLeaf { symbol }),
""",
"a forest created with a capacity that is smaller than the number of symbols",
"empty symbols with high numbers are taken for other nodes of the forest",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        let g = grammar(3, 3, &[(0, &[3, 1, 2]), (1, &[]), (1, &[4]), (2, &[]), (2, &[5])], seed);
        let mut want = None;
        for cap in [1024, 64, 8, 4, 2, 1, 0] {
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::with_capacity(&g, cap));
                assert_eq!(read(&mut r, &[3]), 1);
                let n = r.finished_node().unwrap();
                texts(r.into_forest().evaluate(Write, n))
            }))
            .unwrap_or_default();
            if want.is_none() {
                want = Some(got.clone());
            }
            assert_eq!(want.as_ref(), Some(&got), "seed {seed}, capacity {cap}");
        }
    }
}
''')

bug("f03-zero-within", "F03", "compact-bocage/src/graph.rs",
"""        let f = |mut x: u32| {
            let slice = u32::to_le_bytes(x);
            let mut i = 0;
            while x != 0 {
                i += 1;
                x >>= 8;
            }
            (i.max(1u8), slice)
        };
        let (l_len, slice_left) = f(left);
        let (r_len, slice_right) = f(right);
        let head = (discr""",
"""        let f = |x: u32| {
            let slice = u32::to_le_bytes(x);
            let i = match slice {
                [_, 0, 0, 0] => 1,
                [_, _, 0, 0] => 2,
                [_, _, 0, _] if x >> 24 == 1 => 3,
                [_, _, _, 0] => 3,
                _ => 4,
            };
            (i.max(1u8), slice)
        };
        let (l_len, slice_left) = f(left);
        let (r_len, slice_right) = f(right);
        let head = (discr""",
"a number (token value or reference) whose highest byte is one and whose second highest is zero, such as 16777216 to 16842751",
"such numbers are stored without their highest byte",
r'''
use kit::*;
fn main() {
    let g = grammar(1, 1, &[(0, &[0, 1]), (0, &[1])], 0);
    let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
    start(&mut r);
    let s = t(&g, 1).usize();
    let mut want = String::new();
    for (i, v) in [0u32, 255, 256, 65535, 65536, 1 << 24, (1 << 24) + 77, (1 << 24) + 65535, (1 << 24) + 65536, u32::MAX].into_iter().enumerate() {
        assert!(one(&mut r, 1, v));
        want = if i == 0 { format!("r1(t{s}:{v})") } else { format!("r0({want},t{s}:{v})") };
    }
    let n = r.finished_node().unwrap();
    let got = texts(r.into_forest().evaluate(Write, n));
    assert_eq!(got, [want]);
}
''')

bug("d01-place-of-the-set", "D01", UTILS,
"""                    msg: "failed to parse",
                    tokens: vec![token],
                    i,
                });
""",
"""                    msg: "failed to parse",
                    tokens: vec![token],
                    i: self.earleme() - 1,
                });
""",
"a mistake in a left-recursive list, after positions were removed",
"the error names a place that is too early",
r'''
use kit::*;
use gearley_utils::RecognizerParseExt;
fn main() {
    for seed in 0..10 {
        // S ::= S I | I; I ::= a b
        let g = grammar(2, 2, &[(0, &[0, 1]), (0, &[1]), (1, &[2, 3])], seed);
        for n in 0..8 {
            let mut list = [sym(g.ext[2]), sym(g.ext[3])].repeat(n);
            let at = list.len();
            list.push(sym(g.ext[3]));
            list.push(sym(g.ext[2]));
            let mut r = Recognizer::new(&g);
            match r.parse(&list) {
                Err(e) => {
                    let text = e.to_string();
                    let i: usize = text.rsplit('@').next().unwrap().parse().unwrap();
                    assert!(i == at || i + 1 == at, "seed {seed}: mistake at {at}, reported at {i}")
                }
                other => panic!("{other:?}"),
            }
        }
    }
}
''', extra=UTILS_DEPS)

bug("l01-hint-taken", "L01", REC,
"""                        lookahead: self
                            .lookahead
                            .sym()
                            .unwrap(),
""",
"""                        lookahead: self.lookahead.take().unwrap_or(trans.symbol),
""",
"tracing on, a hint, and a symbol that begins several rules, of which the first one is pruned",
"writing the record uses up the hint, so that the other rules are not pruned",
LOG_SINK + r'''
fn items(g: &TestGrammar) -> Vec<Vec<(u32, u32)>> {
    let mut out = vec![];
    for hint in [3usize, 4, 5] {
        let mut r = Recognizer::with_forest(g, NullForest);
        assert!(start(&mut r));
        r.begin_earleme();
        let h = kit::t(g, hint);
        r.lookahead().set_hint(h);
        let s = kit::t(g, 2);
        r.scan(s, 0);
        let ok = r.end_earleme();
        let mut v = vec![(ok as u32, 0)];
        if ok {
            r.begin_earleme();
            v.extend(r.medial_items().map(|i| (i.dot, i.origin)));
        }
        v.sort();
        out.push(v);
    }
    out
}
fn main() {
    setup();
    for seed in 0..20 {
        // S ::= a b | a c | a d | X b; X ::= a
        let g = grammar(2, 4, &[(0, &[2, 3]), (0, &[2, 4]), (0, &[2, 5]), (0, &[1, 3]), (1, &[2])], seed);
        log::set_max_level(log::LevelFilter::Off);
        let quiet = items(&g);
        log::set_max_level(log::LevelFilter::Trace);
        let loud = items(&g);
        assert_eq!(quiet, loud, "seed {seed}");
    }
}
''', extra=LOG_DEPS, more=[
("gearley-recognizer/src/lookahead.rs", """impl DefaultLookahead {
    pub(crate) fn new""", """impl DefaultLookahead {
    #[allow(dead_code)]
    pub(crate) fn take(&mut self) -> Option<Symbol> {
        self.next_symbol.take()
    }

    pub(crate) fn new"""),
])

