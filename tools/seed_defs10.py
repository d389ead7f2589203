_E02_DEPS = '''gearley-default-grammar = { path = "wrap/gearley-default-grammar" }
gearley-utils = { path = "wrap/gearley-utils" }
gearley-example-grammars = { path = "wrap/gearley-example-grammars" }
cfg-load = { path = "standins/cfg-load" }
cfg = { path = "standins/cfg" }
'''
_E02 = r'''
use cfg::Cfg;
use cfg_load::CfgLoadExt;
use gearley_default_grammar::DefaultGrammar;

fn reads(text: &str) -> bool {
    let bnf = gearley_example_grammars::BNFS.iter().find(|e| e[0] == "c").unwrap()[3];
    let cfg = Cfg::load(bnf).unwrap();
    let g = DefaultGrammar::from_grammar(cfg.clone());
    matches!(gearley_utils::parse_terminal_list(cfg, g, text.split(' ')), Ok(true))
}
'''
_CG = "gearley-example-grammars/src/c/grammar.panini"

bug("e02-for-two-semicolons", "E02", _CG,
"""            declaration
            expression_opt
            semicolon
""",
"""            declaration
            semicolon
            expression_opt
            semicolon
""",
"a for statement whose first part is a declaration",
"for (int i = 0; i < 3; i++) is turned down",
_E02 + r'''
fn main() {
    let f = |b: &str| format!("int identifier lparen rparen lbrace {b} rbrace");
    assert!(reads(&f("for_ lparen semicolon semicolon rparen semicolon")));
    assert!(reads(&f("for_ lparen int identifier equal constant semicolon identifier langle constant semicolon identifier inc_op rparen semicolon")));
    assert!(!reads(&f("for_ lparen int identifier semicolon semicolon semicolon rparen semicolon")));
}
''', extra=_E02_DEPS)

bug("e02-literal-comma", "E02", _CG,
"""        lparen type_name rparen lbrace initializer_list comma rbrace;
    argument""",
"""        lparen type_name rparen lbrace comma initializer_list rbrace;
    argument""",
"a compound literal that ends in a comma",
"(int[]) {1, 2,} is turned down",
_E02 + r'''
fn main() {
    let f = |b: &str| format!("int identifier lparen rparen lbrace identifier equal lparen int lbracket rbracket rparen lbrace {b} rbrace semicolon rbrace");
    assert!(reads(&f("constant comma constant")));
    assert!(reads(&f("constant comma constant comma")));
    assert!(!reads(&f("comma constant")));
}
''', extra=_E02_DEPS)

bug("e02-static-order", "E02", _CG,
"""            type_qualifier_list
            static_
            assignment_expression
""",
"""            type_qualifier_list
            static_
            assignment_expression_opt
""",
"an array parameter with qualifiers and static but no size",
"int a[const static] is accepted",
_E02 + r'''
fn main() {
    let f = |b: &str| format!("void identifier lparen int identifier lbracket {b} rbracket rparen semicolon");
    for ok in ["constant", "static_ constant", "const_ static_ constant", "static_ const_ constant", "const_ star", "const_"] {
        assert!(reads(&f(ok)), "{ok}");
    }
    for wrong in ["static_", "const_ static_", "static_ const_"] {
        assert!(!reads(&f(wrong)), "{wrong}");
    }
}
''', extra=_E02_DEPS)

bug("e02-assignment-chain", "E02", _CG,
"        unary_expression assignment_operator assignment_expression;",
"        unary_expression assignment_operator conditional_expression;",
"assignments chained without parentheses",
"a = b = c is turned down",
_E02 + r'''
fn main() {
    let f = |b: &str| format!("int identifier lparen rparen lbrace {b} semicolon rbrace");
    assert!(reads(&f("identifier equal identifier")));
    assert!(reads(&f("identifier equal identifier equal identifier")));
    assert!(reads(&f("identifier equal lparen identifier equal identifier rparen")));
}
''', extra=_E02_DEPS)

bug("f02-wrapped-results", "F02", "simple-bocage/src/traverse.rs",
"            list.push(result as u32);\n",
"            list.push(result as u16 as u32);\n",
"a tree of more than 65536 nodes",
"arguments are taken from the beginning of a large evaluation",
r'''
use kit::*;
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Last(u32);
struct Lasts;
impl Evaluate for Lasts {
    type Elem = Last;
    fn leaf(&self, _: Symbol, values: u32) -> Last {
        Last(values)
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a Last>) -> Last {
        *args.last().unwrap()
    }
    fn nulling<'r>(&self, _: Symbol, results: &'r mut Vec<Last>) {
        results.push(Last(0));
    }
}
fn main() {
    // S ::= S a | a
    let g = grammar(1, 1, &[(0, &[0, 1]), (0, &[1])], 0);
    for n in [1usize, 5, 1000, 40_000] {
        let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &vec![1; n]), n);
        let node = r.finished_node().unwrap();
        assert_eq!(r.into_forest().evaluate(Lasts, node), [Last(n as u32)], "{n}");
    }
}
''')

bug("f02-empty-again", "F02", "simple-bocage/src/traverse.rs",
"""                    let start = results.len();
                    eval.nulling(symbol, &mut results);
                    work_stack[work.parent].receive_results(start..results.len());
                }
            }
        }
""",
"""                    // The same empty symbol in a row.
                    let start = match last_empty {
                        Some((s, start, end)) if s == symbol && end == results.len() => start,
                        _ => results.len(),
                    };
                    if start == results.len() {
                        eval.nulling(symbol, &mut results);
                    }
                    last_empty = Some((symbol, start, results.len()));
                    work_stack[work.parent].receive_results(start..results.len());
                }
            }
        }
""",
"the same empty symbol twice in a row",
"the action for an empty symbol is called once for two tree nodes",
r'''
use kit::*;
use std::cell::Cell;
struct Count<'a>(&'a Cell<usize>);
impl Evaluate for Count<'_> {
    type Elem = Text;
    fn leaf(&self, _: Symbol, _: u32) -> Text {
        Text::default()
    }
    fn product<'a>(&self, _: u32, _: impl Iterator<Item = &'a Text>) -> Text {
        Text::default()
    }
    fn nulling<'r>(&self, _: Symbol, results: &'r mut Vec<Text>) {
        self.0.set(self.0.get() + 1);
        results.push(Text::default());
    }
}
fn main() {
    // S ::= a E E; E ::= ()
    for seed in 0..10 {
        let g = grammar(2, 1, &[(0, &[2, 1, 1]), (1, &[])], seed);
        let mut r = Recognizer::with_forest(&g, simple_bocage::Bocage::new(&g));
        assert_eq!(read(&mut r, &[2]), 1);
        let node = r.finished_node().unwrap();
        let calls = Cell::new(0);
        r.into_forest().evaluate(Count(&calls), node);
        assert_eq!(calls.get(), 2, "seed {seed}");
    }
}
''', more=[("simple-bocage/src/traverse.rs", """        let mut results: Vec<E::Elem> = vec![];
""", """        let mut results: Vec<E::Elem> = vec![];
        let mut last_empty = None;
""")])

bug("r02-hint-dropped", "R02", REC,
"""        if self.is_exhausted() {
            false
        } else {
            trace!(""",
"""        if self.is_exhausted() {
            self.lookahead.clear_hint();
            false
        } else {
            trace!(""",
"a hint, a refused token, and then the right token at the same position",
"the refused token costs the position its hint: reports of what is in progress differ",
r'''
use kit::*;
fn main() {
    // S ::= A a | B b; A ::= c; B ::= c
    let g = grammar(3, 3, &[(0, &[1, 3]), (0, &[2, 4]), (1, &[5]), (2, &[5])], 0);
    let mut seen = vec![];
    for refused in 0..3 {
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        r.lookahead().set_hint(t(&g, 3));
        for _ in 0..refused {
            r.scan(t(&g, 4), 0);
            assert!(!r.end_earleme());
        }
        r.scan(t(&g, 5), 0);
        assert!(r.end_earleme());
        r.begin_earleme();
        seen.push(r.predicted_symbols().map(|s| s.usize()).collect::<Vec<_>>());
        seen.push(r.medial_items().map(|i| i.dot as usize).collect());
    }
    assert_eq!(seen[..2], seen[2..4]);
    assert_eq!(seen[..2], seen[4..]);
}
''')

bug("r03-hint-one-token", "R03", REC,
"""        self.complete(earleme, symbol, node);
    }

    #[inline]
    pub fn lookahead""",
"""        self.complete(earleme, symbol, node);
        if self.complete.is_empty() && self.medial.last().is_empty() {
            // Not what was expected, so the hint isn't right, either.
            self.lookahead.clear_hint();
        }
    }

    #[inline]
    pub fn lookahead""",
"a hint, and two tokens of which one is not acceptable",
"the hint is lost if the unacceptable token is offered first: reports of what is in progress depend on the order",
r'''
use kit::*;
fn main() {
    // S ::= A a | B b; A ::= c; B ::= c
    let g = grammar(3, 3, &[(0, &[1, 3]), (0, &[2, 4]), (1, &[5]), (2, &[5])], 0);
    let mut seen = vec![];
    for order in [[5, 4], [4, 5], [5, 5]] {
        let mut r = Recognizer::new(&g);
        start(&mut r);
        r.begin_earleme();
        r.lookahead().set_hint(t(&g, 3));
        for k in order {
            r.scan(t(&g, k), 0);
        }
        assert!(r.end_earleme());
        r.begin_earleme();
        let mut items: Vec<usize> = r.medial_items().map(|i| i.dot as usize).collect();
        items.dedup();
        seen.push((r.predicted_symbols().map(|s| s.usize()).collect::<Vec<_>>(), items));
    }
    assert_eq!(seen[0], seen[1]);
    assert_eq!(seen[0], seen[2]);
}
''')
