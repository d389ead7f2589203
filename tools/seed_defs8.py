_E01_DEPS = '''gearley-default-grammar = { path = "wrap/gearley-default-grammar" }
gearley-utils = { path = "wrap/gearley-utils" }
gearley-example-grammars = { path = "wrap/gearley-example-grammars" }
'''
_E01 = r'''
use gearley_default_grammar::DefaultGrammar;
use gearley_example_grammars::{ambiguous_math, precedenced_math};
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;

#[allow(dead_code)]
fn one(text: &str) -> Option<Vec<i32>> {
    let g = DefaultGrammar::from_grammar(precedenced_math::grammar());
    let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
    if !matches!(r.parse(&precedenced_math::tokenize(text)), Ok(true)) {
        return None;
    }
    let node = r.finished_node().unwrap();
    Some(r.into_forest().evaluate(precedenced_math::Evaluator, node))
}

#[allow(dead_code)]
fn all(text: &str) -> Option<Vec<i32>> {
    let g = DefaultGrammar::from_grammar(ambiguous_math::grammar());
    let mut r = Recognizer::with_forest(&g, compact_bocage::Bocage::new(&g));
    if !matches!(r.parse(&ambiguous_math::tokenize(text)), Ok(true)) {
        return None;
    }
    let node = r.finished_node().unwrap();
    let mut v = r.into_forest().evaluate(ambiguous_math::Evaluator, node);
    v.sort();
    Some(v)
}
'''
_PM = "gearley-example-grammars/src/precedenced_math/mod.rs"
_AM = "gearley-example-grammars/src/ambiguous_math/mod.rs"

bug("e01-right-product", "E01", _PM,
"""        .rhs([product, mul, factor])
        .rhs([product, div, factor])
""",
"""        .rhs([factor, mul, product])
        .rhs([product, div, factor])
""",
"a multiplication after a division",
"a product that has a division to the left of a multiplication is refused",
_E01 + r'''
fn main() {
    for (t, v) in [("1", 1), ("2*3", 6), ("2*3*4", 24), ("24/4/2", 3), ("2*8/4", 4), ("8/4*2", 4), ("1+8/4*2-3", 2), ("(8/4)*2", 4)] {
        assert_eq!(one(t), Some(vec![v]), "{t}");
    }
}
''', extra=_E01_DEPS)

bug("e01-minus-negated", "E01", _PM,
"""            1 => a0 - a2,
            2 => a0,

            3 => a0 * a2,
            4 => a0 / a2,
""",
"""            1 => a0 - a2,
            2 => a0,

            3 => a0 * a2,
            4 => a0.div_euclid(a2),
""",
"a division of a negative number that does not come out even",
"the quotient is rounded down in place of towards zero",
_E01 + r'''
fn main() {
    for (t, v) in [("7/2", 3), ("(0-7)/2", -3), ("7/(0-2)", -3), ("(0-7)/(0-2)", 3), ("(0-8)/2", -4), ("1-7/2", -2)] {
        assert_eq!(one(t), Some(vec![v]), "{t}");
    }
}
''', extra=_E01_DEPS)

bug("e01-digit-product", "E01", _AM,
"""            7 | 9 | 11 | 13 | 15 | 17 | 19 | 21 | 23 | 25 => a0,
""",
"""            7 | 9 | 11 | 13 | 15 | 17 | 19 | 21 | 23 | 25 => a0 % 9,
""",
"a number that begins with 9",
"the leading digit 9 counts as 0",
_E01 + r'''
fn main() {
    for (t, v) in [("1", vec![1]), ("88-19", vec![69]), ("9", vec![9]), ("90-1", vec![89]), ("2-0*3+1", vec![1, 2, 3, 7, 8]), ("9-1-1", vec![7, 9])] {
        assert_eq!(all(t), Some(v), "{t}");
    }
}
''', extra=_E01_DEPS)

bug("e01-parenthesised", "E01", _PM,
"""            6 => a1,
            7 => a0,
""",
"""            6 => a1.max(a0),
            7 => a0,
""",
"a parenthesis with a negative value",
"a negative value in parentheses counts as 0",
_E01 + r'''
fn main() {
    for (t, v) in [("(1)", 1), ("2*(3+4)", 14), ("5+(3-4)", 4), ("(3-4)*(3-4)", 1), ("((0))", 0), ("1-2", -1)] {
        assert_eq!(one(t), Some(vec![v]), "{t}");
    }
}
''', extra=_E01_DEPS)
