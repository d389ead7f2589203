VEC = "gearley-vec2d/src/lib.rs"
CP = "gearley-utils/src/cartesian_product.rs"

# ------------------------------------------------------------------------------------------------ containers
bug("v01-truncate-long-open", "V01", VEC,
"""        self.chart
            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);
        self.chart
            .truncate(self.chart.len() + new_medial_start as usize - self.indices.last().unwrap());
""",
"""        let open_start = *self.indices.last().unwrap();
        let removed = open_start - new_medial_start;
        let open_len = self.chart.len() - open_start;
        // Move the open set down over the removed ones.
        let (front, back) = self.chart.split_at_mut(open_start);
        for (dst, src) in front[new_medial_start..].iter_mut().zip(back.iter()) {
            *dst = *src;
        }
        if open_len > removed {
            // What did not fit is already in place.
            self.chart.truncate(new_medial_start + open_len);
        } else {
            self.chart.truncate(new_medial_start + open_len);
        }
""",
"truncating while the open set holds more items than the removed sets together",
"truncate loses the tail of the open set (and keeps its head twice) when the open set is longer than what is removed",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
fn main() {
    for gap in 1..5usize {
        for open in 0..9u32 {
            let mut v = vec2d::Vec2d::new();
            v.push_item(900u32);
            v.next_set();
            v.extend_with_set(0..gap as u32);
            for i in 0..open {
                v.push_item(100 + i);
            }
            v.truncate(1);
            let want: Vec<u32> = (0..open).map(|i| 100 + i).collect();
            assert_eq!(v.last(), &want[..], "gap {gap} open {open}");
            assert_eq!(v.len(), 2);
            assert_eq!(v[0], [900]);
        }
    }
}
''', "rustc")

bug("v01-extend-trusts-hint", "V01", VEC,
"""        self.chart.extend(set);
        self.next_set();
""",
"""        // Seal the set right away if its size is known.
        match set.size_hint() {
            (lower, Some(upper)) if lower == upper => {
                self.indices.push(self.chart.len() + lower);
                self.chart.extend(set);
            }
            _ => {
                self.chart.extend(set);
                self.next_set();
            }
        }
""",
"a caller's iterator with an exact size hint that panics midway or yields another number of items",
"extend_with_set seals the set before its items are there, so a failing iterator leaves a sealed set that reaches past the items",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v = vec2d::Vec2d::new();
    v.push_item(1u32);
    v.next_set();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v.extend_with_set([5u32, 6, 7].into_iter().map(|i| if i == 7 { panic!("iterator fails") } else { i }));
    }));
    assert!(r.is_err());
    // The set was not completed: it must not be sealed.
    if v.len() != 2 || v[0] != [1] {
        std::process::exit(1);
    }
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.last().len() == v.item_count() - 1)).unwrap_or(false);
    if !ok {
        std::process::exit(2);
    }
}
''', "rustc")

SERDE_TOML = {"Cargo.toml": """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
gearley-vec2d = { path = "/repo/gearley-vec2d", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
"""}
bug("v02-strict-boundaries", "V02", VEC,
"""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
""",
"""#[cfg_attr(feature = "serde", derive(serde::Serialize))]
""",
"an image with an empty sealed set",
"restoring refuses every image that has an empty sealed set",
r"""
use gearley_vec2d::Vec2d;
fn main() {
    for sealed in 0..4 {
        for size in [3, 1, 0] {
            let mut v: Vec2d<u32> = Vec2d::new();
            for s in 0..sealed {
                v.extend_with_set(0..(s + size) % 3);
            }
            let text = serde_json::to_string(&v).unwrap();
            let w: Vec2d<u32> = serde_json::from_str(&text).unwrap();
            assert_eq!(v.len(), w.len());
            for i in 0..sealed as usize {
                assert_eq!(v[i], w[i]);
            }
        }
    }
}
""", SERDE_TOML, more=[(VEC,
"""#[derive(Default)]
pub struct Vec2dCapacity {
""",
"""#[cfg(feature = "serde")]
impl<'de, I: serde::Deserialize<'de>> serde::Deserialize<'de> for Vec2d<I> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        #[derive(serde::Deserialize)]
        struct Image<I> {
            chart: Vec<I>,
            indices: Vec<usize>,
        }
        let Image { chart, indices } = Image::deserialize(deserializer)?;
        // Do not trust the boundaries: they begin at 0, grow and stay within the chart.
        let grows = indices.windows(2).all(|w| w[0] < w[1]);
        match (indices.first(), indices.last()) {
            (Some(0), Some(&last)) if grows && last <= chart.len() => Ok(Self { chart, indices }),
            _ => Err(serde::de::Error::custom("malformed boundaries")),
        }
    }
}

#[derive(Default)]
pub struct Vec2dCapacity {
""")])

bug("p01-clear-keeps-pointers", "P01", CP,
"""        self.ranges.clear();
        self.ptrs.clear();
""",
"""        self.ranges.clear();
        self.ptrs.truncate(self.ranges.capacity() / 16);
""",
"clearing a product that once held so many factors that its buffer grew past 16",
"clear leaves pointers of old factors in front of the new ones",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    let data = [1u32, 2];
    for n in [1usize, 3, 9, 20, 40] {
        let mut p = cp::CartesianProduct::new();
        for _ in 0..n {
            p.push(&data[..1]);
        }
        p.clear();
        p.push(&data[..]);
        p.push(&data[1..]);
        let mut seen = vec![];
        loop {
            seen.push(p.as_slice().iter().map(|x| **x).collect::<Vec<_>>());
            if !p.advance() {
                break;
            }
        }
        assert_eq!(seen, [[1, 2], [2, 2]], "after {n} factors");
    }
}
''', "rustc")

bug("p01-nine-factors", "P01", CP,
"""        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {
            if !factor.advance(ptr) {
                return true;
            }
        }
        false
""",
"""        // Small products, which fit the initial buffers, are the common case.
        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).take(8) {
            if !factor.advance(ptr) {
                return true;
            }
        }
        for i in 8..self.ranges.len() {
            if self.ranges[i].advance(&mut self.ptrs[i]) {
                return i + 1 < self.ranges.len();
            }
            return true;
        }
        false
""",
"a product of ten or more factors",
"a carry into the tenth factor is lost: combinations are missing or repeated",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    let two = [0u32, 1];
    for n in [2usize, 8, 9, 10, 12] {
        let mut p = cp::CartesianProduct::new();
        for _ in 0..n {
            p.push(&two[..]);
        }
        let mut count = 0u32;
        loop {
            let v: u32 = p.as_slice().iter().enumerate().map(|(i, x)| **x << i).sum();
            assert_eq!(v, count, "{n} factors");
            count += 1;
            if !p.advance() {
                break;
            }
        }
        assert_eq!(count, 1 << n, "{n} factors");
    }
}
''', "rustc")

# ------------------------------------------------------------------------------------------------ recognizer
bug("r01-reset-keeps-heap", "R01", REC,
"""        self.medial.clear();
        self.leo.clear();
        self.complete.clear();
""",
"""        self.medial.clear();
        self.leo.clear();
""",
"a session abandoned between scanning a token and closing the position",
"reset keeps the completions of the abandoned position, which then take part in the next session",
r'''
use kit::*;
fn main() {
    for seed in 0..20 {
        let g = grammar(1, 2, &[(0, &[1]), (0, &[2, 1])], seed);
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        r.scan(t(&g, 1), 7);
        r.reset();
        r.begin_earleme();
        assert!(!r.end_earleme(), "seed {seed}: a position without tokens was accepted after reset");
    }
}
''')

bug("r02-exhausted-clears-predictions", "R02", REC,
"""        if self.is_exhausted() {
            false
        } else {
            trace!("recognizer.completions_after_scan""",
"""        if self.is_exhausted() {
            // Nothing can follow any more.
            let earleme = self.earleme();
            self.predicted[earleme].clear();
            false
        } else {
            trace!("recognizer.completions_after_scan""",
"an offer of other tokens at the same position after a rejection",
"after a rejected token no other token is accepted at that position",
r'''
use kit::*;
fn main() {
    let g = grammar(1, 2, &[(0, &[1, 0]), (0, &[2])], 0);
    let mut r = Recognizer::new(&g);
    assert_eq!(read(&mut r, &[1, 1]), 2);
    r.begin_earleme();
    r.scan(sym(g.sof_num()), 0);
    assert!(!r.end_earleme());
    r.scan(t(&g, 2), 1);
    assert!(r.end_earleme(), "nothing is accepted after a rejection");
    assert!(r.is_finished());
}
''')

SMALL_OLD = """        self.medial
            .last_mut()
            .sort_unstable_by_key(|item: &Item<F::NodeRef>| {
                (
                    self.grammar.get_rhs1(item.dot).unwrap(),
                    item.dot,
                    item.origin,
                )
            });
"""
bug("r03-small-sets-unsorted", "R03", REC, SMALL_OLD,
"""        // Items of a single scanned token arrive in order.
        let first = self.medial.last().first().map(|item| item.origin);
        if self.medial.last().iter().all(|item| Some(item.origin) == first) {
            return;
        }
""" + SMALL_OLD,
"two alternative tokens at one position whose items arrive in the wrong order (or one token whose rules are not in the order of what they expect next)",
"items of one origin stay unsorted, so a binary search misses some of them, depending on the order in which alternatives were offered",
r'''
use kit::*;
fn main() {
    // S ::= x p | y q | z r: after offering x, y and z together, each of p, q, r must be accepted.
    for seed in 0..40 {
        let g = grammar(1, 6, &[(0, &[1, 4]), (0, &[2, 5]), (0, &[3, 6])], seed);
        for order in [[1, 2, 3], [3, 2, 1], [2, 3, 1], [2, 1, 3], [3, 1, 2], [1, 3, 2]] {
            for last in [4, 5, 6] {
                let mut r = Recognizer::new(&g);
                start(&mut r);
                r.begin_earleme();
                for k in order {
                    r.scan(t(&g, k), 0);
                }
                assert!(r.end_earleme());
                assert!(one(&mut r, last, 0), "seed {seed} order {order:?}: {last} rejected");
                assert!(r.is_finished());
            }
        }
    }
}
''')

bug("r04-first-hint-wins", "R04", "gearley-recognizer/src/lookahead.rs",
"""        self.next_symbol = Some(hint);
""",
"""        self.next_symbol.get_or_insert(hint);
""",
"a second hint for the same position replacing the first one",
"a hint that was overwritten before the position was closed still prunes",
r'''
use kit::*;
fn main() {
    for seed in 0..10 {
        let g = grammar(2, 3, &[(0, &[1, 3]), (0, &[1, 4]), (1, &[2])], seed);
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        r.lookahead().set_hint(t(&g, 2));
        r.lookahead().set_hint(t(&g, 4));
        r.scan(t(&g, 2), 0);
        assert!(r.end_earleme(), "seed {seed}");
        assert!(one(&mut r, 4, 0), "seed {seed}: the hinted token was rejected");
        assert!(r.is_finished());
    }
}
''')

bug("r05-shared-hint", "R05", "gearley-recognizer/src/lookahead.rs",
"""    fn sym(&self) -> Option<Symbol> {
        self.next_symbol
    }

    fn set_hint(&mut self, hint: Symbol) {
        self.next_symbol = Some(hint);
    }

    fn clear_hint(&mut self) {
        self.next_symbol = None;
    }
}
""",
"""    fn sym(&self) -> Option<Symbol> {
        self.next_symbol.or_else(|| PENDING.with(|p| p.get()))
    }

    fn set_hint(&mut self, hint: Symbol) {
        self.next_symbol = Some(hint);
        PENDING.with(|p| p.set(Some(hint)));
    }

    fn clear_hint(&mut self) {
        self.next_symbol = None;
        PENDING.with(|p| p.set(None));
    }
}

thread_local! {
    /// The hint given last.
    static PENDING: std::cell::Cell<Option<Symbol>> = const { std::cell::Cell::new(None) };
}
""",
"two sessions in one thread, one of which was given a hint before the other closes a position",
"a hint given to one recognizer prunes in another one of the same thread",
r'''
use kit::*;
fn main() {
    let g = grammar(2, 3, &[(0, &[1, 3]), (0, &[1, 4]), (1, &[2])], 0);
    let mut a = Recognizer::new(&g);
    let mut b = Recognizer::new(&g);
    start(&mut a);
    start(&mut b);
    a.begin_earleme();
    a.lookahead().set_hint(t(&g, 3));
    assert!(one(&mut b, 2, 0));
    assert!(one(&mut b, 4, 0), "a hint of another session took effect");
    a.scan(t(&g, 2), 0);
    assert!(a.end_earleme());
    assert!(one(&mut a, 3, 0));
}
''')

bug("r06-sort-by-rule", "R06", REC,
"""                (
                    self.grammar.get_rhs1(item.dot).unwrap(),
                    item.dot,
                    item.origin,
                )
""",
"""                // The dot determines the symbol after it, except for the end of input, which comes first.
                (
                    item.dot != self.grammar.dot_before_eof(),
                    item.dot,
                    item.origin,
                )
""",
"a position with items of two rules, in which the rule with the lower number expects the symbol with the higher number",
"items are searched by the symbol after the dot but sorted by rule: a valid continuation may be missed",
r'''
use kit::*;
fn main() {
    for seed in 0..60 {
        let g = grammar(4, 4, &[(0, &[1, 4]), (0, &[2, 5]), (0, &[3, 6]), (1, &[7]), (2, &[7]), (3, &[7])], seed);
        for last in [4, 5, 6] {
            let mut r = Recognizer::new(&g);
            assert_eq!(read(&mut r, &[7, last]), 2, "seed {seed}: {last} rejected");
            assert!(r.is_finished(), "seed {seed}");
        }
    }
}
''')

bug("r06-origin-of-last", "R06", REC,
"""            .map(origin)
            .max()
            .unwrap_or(self.earleme());
""",
"""            .map(origin)
            .last()
            .unwrap_or(self.earleme());
""",
"a position whose last item (by the symbol expected next) starts earlier than another item",
"sets that are still needed are dropped, so that valid input is rejected or the recognizer panics",
r'''
use kit::*;
fn main() {
    for seed in 0..40 {
        // S ::= x A y, A ::= A b | b
        let g = grammar(2, 3, &[(0, &[2, 1, 4]), (1, &[1, 3]), (1, &[3])], seed);
        let mut r = Recognizer::new(&g);
        assert_eq!(read(&mut r, &[2, 3, 3, 3, 4]), 5, "seed {seed}");
        assert!(r.is_finished(), "seed {seed}");
    }
}
''')

ORDER_MAIN = r'''
use kit::*;
use std::collections::HashSet;
fn check(g: &TestGrammar, toks: &[usize], what: &str) {
    let sets: Vec<[usize; 1]> = toks.iter().map(|t| [*t]).collect();
    let sets: Vec<&[usize]> = sets.iter().map(|s| &s[..]).collect();
    check_set(g, &sets, what)
}
fn check_set(g: &TestGrammar, toks: &[&[usize]], what: &str) {
    let mut r = Recognizer::new(g);
    start(&mut r);
    for &set in toks {
        r.begin_earleme();
        for &k in set {
            r.scan(t(g, k), 0);
        }
        assert!(!r.is_exhausted());
        let mut seen = HashSet::new();
        let mut last = u32::MAX;
        while let Some(mut group) = r.next_sum() {
            let key = (group.symbol().usize(), group.origin());
            assert!(seen.insert(key), "{what}: fragment {key:?} offered twice");
            assert!(key.1 <= last, "{what}: fragment {key:?} offered after one that starts at {last}");
            last = key.1;
            while let Some(item) = group.next_summand() {
                group.push_summand(item);
            }
            group.complete_sum();
        }
        r.advance_after_completion();
    }
}
fn main() {
    for seed in 0..60 {
        let g = grammar(1, 1, &[(0, &[0, 0]), (0, &[1])], seed);
        check(&g, &[1; 7], "S ::= S S | a");
        let g = grammar(5, 2, &[
            (0, &[1, 6]), (0, &[2, 6]), (1, &[3, 4]), (1, &[4, 3]), (1, &[5, 5]), (2, &[3, 3]), (2, &[4, 4]), (2, &[5, 5]),
            (3, &[5]), (4, &[5]), (1, &[3, 3]), (2, &[3, 4]),
        ], seed);
        check(&g, &[5, 5, 6], "pairs");
        // Alternatives offered in any order.
        let g = grammar(4, 8, &[(0, &[1]), (0, &[2]), (0, &[3]), (1, &[4]), (1, &[5]), (1, &[6]), (2, &[7]), (2, &[8]), (3, &[9]), (3, &[10]), (3, &[11])], seed);
        let mut order: Vec<usize> = (4..12).collect();
        let mut x = 12345 + seed as usize;
        for _ in 0..200 {
            for i in 1..order.len() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                order.swap(i, (x >> 33) % (i + 1));
            }
            check_set(&g, &[&order], "alternatives");
        }
    }
}
'''
bug("r07-last-right-child", "R07", "gearley-recognizer/src/binary_heap.rs",
"""            // compare with the greater of the two children
            if right < end && !(self.heap_get(child).unwrap() > self.heap_get(right).unwrap()) {
                child = right;
            }
            // if we are already in order, stop.
            if &element >= self.heap_get(child).unwrap() {
                break;
            }
            self.complete.0[pos]""",
"""            // compare with the greater of the two children
            if right + 1 < end && !(self.heap_get(child).unwrap() > self.heap_get(right).unwrap()) {
                child = right;
            }
            // if we are already in order, stop.
            if &element >= self.heap_get(child).unwrap() {
                break;
            }
            self.complete.0[pos]""",
"three or more completed items pending at once, the greatest of them in the last place of the heap",
"completed fragments are offered out of order or in pieces",
ORDER_MAIN)

bug("r07-heap-ignores-rule", "R07", "gearley-forest/src/item.rs",
"""        Some((self.origin, self.dot).cmp(&(other.origin, other.dot)))
""",
"""        // The start alone decides what is completed first.
        Some(self.origin.cmp(&other.origin))
""",
"two symbols completed over the same span, each in several ways",
"alternatives of one fragment are offered in separate groups",
ORDER_MAIN)

bug("r08-skip-takes-neighbours", "R08", REC,
"""        // For each item, include it in the completion.
        while let Some(_) = self.next_summand() {}
""",
"""        // Drop each item of the completion.
        while self
            .recognizer
            .heap_peek()
            .map_or(false, |item| item.origin == self.origin)
        {
            self.recognizer.heap_pop();
        }
""",
"refusing one fragment while another one with the same start is pending",
"refusing a fragment also refuses other symbols that start at the same place",
r'''
use kit::*;
fn main() {
    // S ::= X p | Y q; X ::= a; Y ::= a. Refuse X, then Y is still there (and the other way round).
    for seed in 0..20 {
        for refused in [1, 2] {
            let g = grammar(3, 3, &[(0, &[1, 4]), (0, &[2, 5]), (1, &[3]), (2, &[3])], seed);
            let no = t(&g, refused);
            let mut r = Recognizer::new(&g);
            start(&mut r);
            r.begin_earleme();
            r.scan(t(&g, 3), 0);
            while let Some(mut group) = r.next_sum() {
                if group.symbol() == no {
                    group.skip_entire_sum();
                } else {
                    group.complete_entire_sum();
                }
            }
            r.advance_after_completion();
            let (yes, other) = if refused == 1 { (5, 4) } else { (4, 5) };
            assert!(!one(&mut r, other, 0), "seed {seed}: what needs the refused symbol is accepted");
            r.scan(t(&g, yes), 0);
            assert!(r.end_earleme(), "seed {seed}: refusing {refused} refused the other one, too");
        }
    }
}
''')

bug("r09-leo-boundaries", "R09", REC,
"""        self.medial.next_set();
        if P::LEO {
            self.leo.next_set();
        }
""",
"""        self.medial.next_set();
        // Both containers have as many sets.
        self.leo.next_set();
""",
"a stream long enough for eight bytes per token to matter",
"a boundary per token is kept forever, although old positions are dropped",
r'''
use kit::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let g = grammar(2, 2, &[(0, &[0, 1]), (0, &[1]), (1, &[2, 3])], 0);
    let mut r = Recognizer::new(&g);
    start(&mut r);
    let mut early = 0;
    for i in 0..200_000 {
        assert!(one(&mut r, 2 + i % 2, i as u32));
        if i == 2000 {
            early = LIVE.load(Relaxed);
        }
    }
    let late = LIVE.load(Relaxed);
    assert!(late < early + 65536, "memory grew from {early} to {late} bytes");
}
''')

bug("r10-predict-two-blocks", "R10", "gearley-recognizer/src/predict.rs",
"""            for (dst, &src) in self.iter_blocks_mut().zip(source.iter_blocks()) {
                *dst |= src;
            }
""",
"""            // Two blocks at a time.
            let mut source = source.iter_blocks();
            let mut blocks = self.iter_blocks_mut();
            while let (Some(dst), Some(&src)) = (blocks.next(), source.next()) {
                *dst |= src;
                if let (Some(dst), Some(&src)) = (blocks.next(), source.next()) {
                    *dst |= src;
                    if blocks.len() == 1 {
                        break;
                    }
                }
            }
""",
"a grammar with an odd number (three or more) of 32-symbol blocks",
"symbols of the last block are never predicted",
r'''
use kit::*;
fn main() {
    for n in [3usize, 30, 60, 70, 90, 100, 130, 150, 200] {
        let rules: Vec<(usize, Vec<usize>)> = (0..n).map(|i| (0, vec![1 + i, 1 + (i + 1) % n])).collect();
        let rules: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
        let g = grammar(1, n, &rules, 5);
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        let p: Vec<usize> = r.predicted_symbols().map(|s| s.usize()).collect();
        for i in 0..n {
            assert!(p.contains(&t(&g, 1 + i).usize()), "{n} terminals: terminal {i} is not predicted");
        }
    }
}
''')

PANIC_FOREST = r'''
use kit::*;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
#[derive(Clone)]
struct Flaky(Rc<RefCell<FOREST>>, Rc<Cell<i32>>);
impl Flaky {
    fn tick(&self) {
        self.1.set(self.1.get() - 1);
        if self.1.get() == 0 {
            panic!("callback fails");
        }
    }
}
impl Forest for Flaky {
    type NodeRef = NodeHandle;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.tick();
        self.0.borrow_mut().begin_sum()
    }
    fn push_summand(&mut self, item: Item<NodeHandle>) {
        self.tick();
        self.0.borrow_mut().push_summand(item)
    }
    fn sum(&mut self, s: Symbol, o: u32) -> NodeHandle {
        self.tick();
        self.0.borrow_mut().sum(s, o)
    }
    fn product(&mut self, l: NodeHandle, r: NodeHandle) -> NodeHandle {
        self.tick();
        self.0.borrow_mut().product(l, r)
    }
    fn leaf(&mut self, s: Symbol, p: u32, v: u32) -> NodeHandle {
        self.tick();
        self.0.borrow_mut().leaf(s, p, v)
    }
    fn nulling(&self, s: Symbol) -> NodeHandle {
        self.0.borrow().nulling(s)
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let g = grammar(2, 3, &[(0, &[0, 2, 1]), (0, &[1]), (1, &[3]), (1, &[4, 0, 4])], 0);
    let toks = [3, 2, 4, 3, 2, 3, 4];
    let want = {
        let fuse = Rc::new(Cell::new(-1));
        let f = Flaky(Rc::new(RefCell::new(FOREST::new(&g))), fuse);
        let mut r = Recognizer::with_forest(&g, f.clone());
        assert_eq!(read(&mut r, &toks), toks.len());
        let n = r.finished_node().unwrap();
        let v = texts(f.0.borrow_mut().evaluate(Write, n));
        v
    };
    for k in 1..60 {
        let fuse = Rc::new(Cell::new(k));
        let f = Flaky(Rc::new(RefCell::new(FOREST::new(&g))), fuse.clone());
        let mut r = Recognizer::with_forest(&g, f.clone());
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read(&mut r, &toks)));
        fuse.set(-1);
        r.reset();
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            assert_eq!(read(&mut r, &toks), toks.len());
            let n = r.finished_node().unwrap();
            let v = texts(f.0.borrow_mut().evaluate(Write, n));
            v
        }));
        match got {
            Ok(v) if v == want => {}
            other => {
                println!("callback {k} failed; after the reset: {other:?}, expected {want:?}");
                std::process::exit(1);
            }
        }
    }
}
'''
bug("r11-nested-sum-assert", "R11", "compact-bocage/src/bocage.rs",
"""        self.sum = Some(self.graph.len());
        self.num_summands = 0;
""",
"""        let previous = self.sum.replace(self.graph.len());
        assert_eq!(previous, None, "sums do not nest");
        self.num_summands = 0;
""",
"a callback failing between the begin and the end of a sum, followed by a reset",
"a forest that was left in the middle of a sum can never be used again",
PANIC_FOREST.replace("FOREST", "compact_bocage::Bocage").replace("compact_bocage::Bocage_BYTES", "FOREST_BYTES"))

# ---------------------------------------------------------------------------------------------------- forests
bug("f01-duplicate-completions", "F01", "gearley-recognizer/src/binary_heap.rs",
"""        let old_indices_len = self.0.len();
        self.0.push(item);
""",
"""        // The same item may be completed again.
        if self.0.first() == Some(&item) {
            return;
        }
        let old_indices_len = self.0.len();
        self.0.push(item);
""",
"an ambiguity within one rule (the same rule and start, another split), found while the first derivation is on top of the heap",
"trees that differ only in where the parts of one rule meet are lost",
r'''
use kit::*;
use gearley_forest::item::Item;
#[derive(Default)]
struct Count(u64);
impl Forest for Count {
    type NodeRef = u64;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.0 = 0;
    }
    fn push_summand(&mut self, item: Item<u64>) {
        self.0 += item.node;
    }
    fn sum(&mut self, _: Symbol, _: u32) -> u64 {
        std::mem::take(&mut self.0)
    }
    fn product(&mut self, l: u64, r: u64) -> u64 {
        l * r
    }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> u64 {
        1
    }
    fn nulling(&self, _: Symbol) -> u64 {
        1
    }
}
fn main() {
    for seed in 0..20 {
        let g = grammar(1, 1, &[(0, &[0, 0]), (0, &[1])], seed);
        for (n, catalan) in [(1, 1), (2, 1), (3, 2), (4, 5), (5, 14), (6, 42), (7, 132)] {
            let mut r = Recognizer::with_forest(&g, Count::default());
            assert_eq!(read(&mut r, &vec![1; n]), n);
            assert_eq!(r.finished_node(), Some(catalan), "seed {seed}: trees of {n} tokens");
        }
    }
}
''')

EVAL_MAIN = r'''
use kit::*;
fn eval_simple(g: &TestGrammar, toks: &[usize]) -> Vec<String> {
    let mut r = Recognizer::with_forest(g, simple_bocage::Bocage::new(g));
    assert_eq!(read(&mut r, toks), toks.len());
    let n = r.finished_node().unwrap();
    texts(r.into_forest().evaluate(Write, n))
}
'''
bug("f02-last-nulling-symbol", "F02", "simple-bocage/src/bocage.rs",
"""                .take(nulling_leaf_count + 1)
                .map(|symbol| Node::NullingLeaf { symbol }),
""",
"""                .take(nulling_leaf_count.max(1))
                .map(|symbol| Node::NullingLeaf { symbol }),
""",
"a tree with an empty symbol that has the highest number of all symbols that can be empty",
"the node of the highest-numbered empty symbol is really the first node of the forest (the start of input)",
EVAL_MAIN + r'''
fn main() {
    // S ::= a N M, N ::= | b, M ::= | c
    for seed in 0..40 {
        let g = grammar(3, 3, &[(0, &[3, 1, 2]), (1, &[]), (1, &[4]), (2, &[]), (2, &[5])], seed);
        let (n, m) = (g.of_orig[1].unwrap(), g.of_orig[2].unwrap());
        let got = eval_simple(&g, &[3]);
        assert_eq!(got, [format!("r0(t{}:1,n{n},n{m})", t(&g, 3).usize())], "seed {seed}");
    }
}
''')

bug("f03-length-of-nine-bits", "F03", "compact-bocage/src/graph.rs",
"""        let f = |mut x: u32| {
            let slice = u32::to_le_bytes(x);
            let mut i = 0;
            while x != 0 {
                i += 1;
                x >>= 8;
            }
            (i.max(1u8), slice)
        };
        let (l_len, slice_left) = f(left);
        let (r_len, slice_right) = f(right);
        let head = (discr""",
"""        let f = |x: u32| {
            let slice = u32::to_le_bytes(x);
            let bits = 32 - x.leading_zeros();
            let i = ((bits + 6) / 8) as u8;
            (i.max(1u8), slice)
        };
        let (l_len, slice_left) = f(left);
        let (r_len, slice_right) = f(right);
        let head = (discr""",
"a number (token value, symbol or reference) whose length is one bit more than a whole number of bytes, such as 256 to 511",
"such numbers are stored without their highest bit",
r'''
use kit::*;
fn main() {
    let g = grammar(1, 1, &[(0, &[0, 1]), (0, &[1])], 0);
    let mut values: Vec<u32> = (0..3000).collect();
    values.extend([65535, 65536, 70000, 131071, 131072, 1 << 24, (1 << 25) - 1, 1 << 25, u32::MAX]);
    let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
    start(&mut r);
    let s = t(&g, 1).usize();
    let mut want = String::new();
    for (i, &v) in values.iter().enumerate() {
        assert!(one(&mut r, 1, v));
        want = if i == 0 { format!("r1(t{s}:{v})") } else { format!("r0({want},t{s}:{v})") };
        if want.len() > 100_000 {
            break;
        }
    }
    let n = r.finished_node().unwrap();
    let got = texts(r.into_forest().evaluate(Write, n));
    assert!(got == [want], "the value differs");
}
''')

bug("f04-twice-expanded", "F04", "simple-bocage/src/bocage.rs",
"""            if let Node::Rule { .. } = self[factors] {
                return node;
            }
            if action == NULL_ACTION {
                return node;
            }
            // Add omitted""",
"""            if action == NULL_ACTION {
                return node;
            }
            // Add omitted""",
"evaluating the same node a second time when its tree has an empty symbol",
"each evaluation adds the omitted empty symbols once more",
EVAL_MAIN + r'''
fn main() {
    for seed in 0..10 {
        let g = grammar(2, 2, &[(0, &[2, 1]), (1, &[]), (1, &[3])], seed);
        let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &[2]), 1);
        let n = r.finished_node().unwrap();
        let mut f = r.into_forest();
        let a = texts(f.evaluate(Write, n));
        let b = texts(f.evaluate(Write, n));
        let c = texts(f.evaluate(Write, n));
        assert_eq!(a, eval_simple(&g, &[2]));
        assert_eq!(a, b, "seed {seed}");
        assert_eq!(a, c, "seed {seed}");
    }
}
''')
