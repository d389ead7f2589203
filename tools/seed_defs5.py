# ------------------------------------------------------------------------------------------------- fifth set
bug("v01-clear-nothing", "V01", VEC,
"""        self.chart.clear();
        // Indices reset to [0, 0].
""",
"""        if self.chart.is_empty() {
            // Nothing to remove.
            return;
        }
        self.chart.clear();
        // Indices reset to [0, 0].
""",
"clearing when there are sealed sets, all of them empty",
"the sealed empty sets stay after clearing",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
fn main() {
    let mut v = vec2d::Vec2d::<u32>::new();
    v.next_set();
    v.push_item(1);
    v.pop_item();
    v.next_set();
    v.clear();
    assert_eq!(v.len(), 1);
    v.extend_with_set([4, 5].into_iter());
    assert_eq!(v[0], [4, 5]);
}
''', "rustc")

bug("v01-truncate-overlap", "V01", VEC,
"""        self.chart
            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);
        self.chart
            .truncate(self.chart.len() + new_medial_start as usize - self.indices.last().unwrap());
""",
"""        let last_start = *self.indices.last().unwrap();
        let count = self.chart.len() - last_start;
        for i in (0..count).rev() {
            self.chart[new_medial_start + i] = self.chart[last_start + i];
        }
        self.chart.truncate(new_medial_start + count);
""",
"truncating with more open items than items removed",
"open items are overwritten before they are moved",
r'''
#[path = "/repo/gearley-vec2d/src/lib.rs"]
mod vec2d;
fn main() {
    let mut v = vec2d::Vec2d::new();
    v.extend(vec![vec![1u32], vec![2, 3]]);
    for i in 10..17 {
        v.push_item(i);
    }
    v.truncate(1);
    assert_eq!(v[0], [1]);
    assert_eq!(v.last(), [10, 11, 12, 13, 14, 15, 16]);
}
''', "rustc")

bug("p01-upper-bound", "P01", "gearley-utils/src/cartesian_product.rs",
"""        for slice in product {
            self.push(slice);
        }
""",
"""        let (_, upper) = product.size_hint();
        self.ptrs.reserve(upper.unwrap_or(0));
        self.ranges.reserve(upper.unwrap_or(0));
        for slice in product {
            self.push(slice);
        }
""",
"extending from an iterator whose upper bound is far from the number of slices it gives",
"a valid iterator makes the product panic or ask for absurd amounts of memory",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    let (a, b) = ([1u8, 2], [3u8]);
    let slices = [&a[..], &b[..]];
    let mut p = cp::CartesianProduct::new();
    p.extend((0..usize::MAX).map_while(|i| slices.get(i).copied()));
    let mut n = 1;
    while p.advance() {
        n += 1;
    }
    assert_eq!(n, 2);
}
''', "rustc")

bug("p01-first-factor-apart", "P01", "gearley-utils/src/cartesian_product.rs",
"""        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {
            if !factor.advance(ptr) {
                return true;
            }
        }
        false
""",
"""        // Most of the time, only the first factor has to move.
        if let Some(first) = self.ranges.first_mut() {
            if first.index + 1 < first.slice.len() {
                return !first.advance(&mut self.ptrs[0]);
            }
        }
        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).skip(1) {
            if !factor.advance(ptr) {
                if let Some(first) = self.ranges.first_mut() {
                    first.advance(&mut self.ptrs[0]);
                }
                return true;
            }
        }
        false
""",
"using the product again after its end without clearing it",
"after the last combination the first factor does not start over, so combinations are missing",
r'''
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cp;
fn main() {
    let (a, b) = ([1u8, 2, 3], [3u8, 4]);
    let mut p = cp::CartesianProduct::new();
    p.push(&a);
    p.push(&b);
    for _ in 0..2 {
        let mut seen = vec![(*p.as_slice()[0], *p.as_slice()[1])];
        while p.advance() {
            seen.push((*p.as_slice()[0], *p.as_slice()[1]));
        }
        assert_eq!(seen, [(1, 3), (2, 3), (3, 3), (1, 4), (2, 4), (3, 4)]);
    }
}
''', "rustc")

bug("r06-sixteen-items", "R06", REC,
"""        let set_idx = specific_set.binary_search_by(|ei| {
            (self.grammar.get_rhs1(ei.dot), cmp::Ordering::Greater)
                .cmp(&(Some(sym), cmp::Ordering::Less))
        });
        let inner_start = match set_idx {
            Ok(idx) | Err(idx) => idx,
        };
""",
"""        let inner_start = if specific_set.len() >= 16 {
            let set_idx = specific_set
                .binary_search_by(|ei| self.grammar.get_rhs1(ei.dot).cmp(&Some(sym)));
            match set_idx {
                Ok(idx) | Err(idx) => idx,
            }
        } else {
            specific_set
                .iter()
                .position(|ei| self.grammar.get_rhs1(ei.dot) >= Some(sym))
                .unwrap_or(specific_set.len())
        };
""",
"a set of at least 16 items, several of which wait for the same symbol",
"the search may begin in the middle of the items that wait for a symbol, so valid input is rejected",
r'''
use kit::*;
fn main() {
    // S ::= A | a A2 b ...: eighteen rules waiting for the same token after the first.
    let n = 18;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let a = n + 1;
    for i in 0..n {
        rules.push((0, vec![1 + i]));
        rules.push((1 + i, vec![a, a + 1, a + 2 + i]));
    }
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    for seed in 0..4 {
        let g = grammar(n + 1, n + 2, &rules, seed);
        for i in 0..n {
            let mut r = Recognizer::new(&g);
            assert_eq!(read(&mut r, &[a, a + 1, a + 2 + i]), 3, "seed {seed} last token {i}");
            assert!(r.is_finished());
        }
    }
}
''')

bug("r09-one-at-a-time", "R09", REC,
"""        let new_earleme = max_origin;
""",
"""        // At most one set at a time, so that no step takes long.
        let new_earleme = max_origin.max(self.earleme().saturating_sub(1));
""",
"a list of items of two or more tokens",
"each item leaves positions that never are removed",
r'''
use kit::*;
fn main() {
    // L ::= L I | I; I ::= a ;
    let g = grammar(2, 2, &[(0, &[0, 1]), (0, &[1]), (1, &[2, 3])], 0);
    let mut r = Recognizer::new(&g);
    start(&mut r);
    for i in 0..4000 {
        assert!(one(&mut r, 2, i));
        assert!(one(&mut r, 3, i));
        assert!(r.earleme() < 200, "{} positions after {i} items", r.earleme());
    }
}
''')

bug("f01-same-terminal", "F01", REC,
"""                    item.origin,
                )
            });
    }

    fn add_leo_items""",
"""                    item.origin,
                )
            });
        // Remove duplicates.
        let mut kept = vec![];
        for item in self.medial.last() {
            let same = |other: &Item<F::NodeRef>| other.dot == item.dot && other.origin == item.origin;
            if !kept.last().map_or(false, same) {
                kept.push(*item);
            }
        }
        let start = self.medial.item_count() - self.medial.last().len();
        self.medial.truncate_chart(start);
        for item in kept {
            self.medial.push_item(item);
        }
    }

    fn add_leo_items""",
"two tokens with the same terminal and different values offered at one position",
"the trees with one of the two values are missing from the forest",
r'''
use kit::*;
fn main() {
    let g = grammar(1, 2, &[(0, &[1, 2])], 0);
    let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    start(&mut r);
    let a = t(&g, 1);
    r.begin_earleme();
    r.scan(a, 7);
    r.scan(a, 8);
    assert!(r.end_earleme());
    assert!(one(&mut r, 2, 9));
    let n = r.finished_node().unwrap();
    let mut v = texts(r.into_forest().evaluate(Write, n));
    v.sort();
    assert_eq!(v.len(), 2, "{v:?}");
    assert!(v[0].contains(":7") && v[1].contains(":8"));
}
''')

bug("f05-one-per-rule", "F05", "simple-bocage/src/bocage.rs",
"""        self.graph.push(Node::Product {
            action: item.dot,
            factors: item.node,
        });
        self.summand_count += 1;
""",
"""        if self.summand_count > 0 {
            if let Some(Node::Sum { .. } | Node::Product { action, .. }) = self.graph.last() {
                if *action == item.dot && self.forest_info.external_origin(item.dot).map_or(true, |o| o.id == !0) {
                    // The same piece of a rule again.
                    return;
                }
            }
        }
        self.graph.push(Node::Product {
            action: item.dot,
            factors: item.node,
        });
        self.summand_count += 1;
""".replace("Node::Sum { .. } | ", ""),
"a rule of three symbols whose first two can be split in two places",
"the trees of all but one split are missing",
r'''
use kit::*;
fn main() {
    // S ::= A A b; A ::= a | a a
    for seed in 0..6 {
        let g = grammar(2, 2, &[(0, &[1, 1, 3]), (1, &[2]), (1, &[2, 2])], seed);
        let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &[2, 2, 2, 3]), 4);
        let n = r.finished_node().unwrap();
        let v = texts(r.into_forest().evaluate(Write, n));
        assert_eq!(v.len(), 2, "{v:?}");
    }
}
''')

bug("f05-count-byte", "F05", "simple-bocage/src/bocage.rs",
"""                        count: self.summand_count as u32,
""",
"""                        count: u32::from(self.summand_count as u8),
""",
"a node with more than 255 alternatives",
"only the number of alternatives modulo 256 is evaluated",
r'''
use kit::*;
fn main() {
    // 300 ways to read one token.
    let n = 300;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..n {
        rules.push((0, vec![1 + i]));
        rules.push((1 + i, vec![n + 1]));
    }
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let g = grammar(n + 1, 1, &rules, 0);
    let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    assert_eq!(read(&mut r, &[n + 1]), 1);
    let node = r.finished_node().unwrap();
    let v = texts(r.into_forest().evaluate(Write, node));
    assert_eq!(v.len(), n);
}
''')

bug("f05-sum-taken", "F05", "compact-bocage/src/bocage.rs",
"""        if self.num_summands == 1 {
            NodeHandle(result + 1)
        } else {
            NodeHandle(result)
        }
""",
"""        match self.num_summands {
            // Nothing to add up.
            1 => NodeHandle(result + 1),
            // The first of two summands leads to the second.
            2 if self.graph.get_node_size(result as usize + 1) < 4 => NodeHandle(result + 1),
            _ => NodeHandle(result),
        }
""",
"an ambiguous node with two alternatives while references in the forest are still short",
"the alternatives are multiplied as factors of the parent instead of being added up",
r'''
use kit::*;
fn main() {
    // S ::= A b; A ::= B | C; B ::= a; C ::= a
    let g = grammar(4, 2, &[(0, &[1, 5]), (1, &[2]), (1, &[3]), (2, &[4]), (3, &[4])], 0);
    let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
    assert_eq!(read(&mut r, &[4, 5]), 2);
    let n = r.finished_node().unwrap();
    let v = texts(r.into_forest().evaluate(Write, n));
    assert_eq!(v.len(), 2, "{v:?}");
}
''')

bug("f05-nothing-left-out", "F05", "simple-bocage/src/bocage.rs",
"""            if let Some((sym, dir)) = self.forest_info.nulling_eliminated[action as usize] {
""",
"""            if let Some((sym, dir)) = self.forest_info.nulling_eliminated[action as usize]
                .filter(|_| !matches!(self[factors], Node::Sum { .. }))
            {
""",
"a rule with an empty symbol left out, next to an ambiguous one",
"the argument of the empty symbol is missing",
r'''
use kit::*;
fn main() {
    // S ::= A N; A ::= B | C; B ::= a; C ::= a; N ::= | b
    for seed in 0..4 {
        let g = grammar(5, 2, &[(0, &[1, 4]), (1, &[2]), (1, &[3]), (2, &[5]), (3, &[5]), (4, &[]), (4, &[6])], seed);
        let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &[5]), 1);
        let n = r.finished_node().unwrap();
        let v = texts(r.into_forest().evaluate(Write, n));
        assert_eq!(v.len(), 2, "{v:?}");
        for x in v {
            assert!(x.starts_with("r0(r") && x.contains(",n"), "{x}");
        }
    }
}
''')

bug("r12-half-lookahead", "R12", REC,
"""            if !P::LOOKAHEAD || will_be_useful {
                item.node""",
"""            if will_be_useful {
                item.node""",
"settings without lookahead, and a hint that turns out wrong after an item of two symbols",
"the wrong hint removes an item although lookahead is off",
r'''
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::PerfHint;
use kit::*;
struct Off;
impl PerfHint for Off {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = cfg_symbol::Symbol;
}
fn main() {
    // S ::= A z | A w w; A ::= x y
    let g = grammar(2, 5, &[(0, &[1, 4]), (1, &[2, 3]), (0, &[5, 6])], 0);
    let mut r = Recognizer::with_forest_and_policy(&g, gearley_forest::NullForest, Off);
    start(&mut r);
    assert!(one(&mut r, 2, 0));
    let hint = t(&g, 6);
    r.lookahead().set_hint(hint);
    assert!(one(&mut r, 3, 1));
    assert!(one(&mut r, 4, 2));
    assert!(r.is_finished());
}
''')

bug("r12-unsigned", "R12", "gearley-recognizer/src/perf_hint.rs",
"""        cmp::max(self.chart_use() / self.bytes_per_set() as isize, 32) as usize""",
"""        cmp::max(self.chart_use() as usize / self.bytes_per_set(), 32)""",
"a memory limit that is used up by the forest and the list of completions",
"a recognizer can't be created, because it reserves more than there is",
r'''
use gearley_recognizer::perf_hint::DefaultPerfHint;
use kit::*;
fn main() {
    let g = grammar(1, 2, &[(0, &[1, 2])], 0);
    for limit in [20_000, 8192, 3000, 1024, 600, 0] {
        let hint = DefaultPerfHint::new(limit);
        let mut r = Recognizer::with_forest_and_policy(&g, gearley_forest::NullForest, hint);
        start(&mut r);
        assert!(one(&mut r, 1, 0));
        assert!(one(&mut r, 2, 0));
        assert!(r.is_finished());
    }
}
''')
