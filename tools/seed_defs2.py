# ------------------------------------------------------------------------------------------------ second set
LOG_DEPS = """gearley-recognizer-log = { path = "wrap/gearley-recognizer-log" }
log = "0.4"
"""
LOG_SINK = r'''
use kit::{grammar, TestGrammar, Forest, NullForest};
use gearley_recognizer_log::Recognizer;
use gearley_recognizer_log::lookahead::Lookahead;
use gearley_recognizer_log::perf_hint::PerfHint;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
struct Sink;
/// The sink fails when this reaches zero.
static LEFT: AtomicI64 = AtomicI64::new(-1);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = format!("{}", r.args());
        std::hint::black_box(s);
        if LEFT.fetch_sub(1, Relaxed) == 1 {
            panic!("the sink fails");
        }
    }
    fn flush(&self) {}
}
fn sym(i: usize) -> kit::Symbol {
    kit::sym(i)
}
fn start<F: Forest, P: PerfHint>(r: &mut Recognizer<&TestGrammar, F, P>) -> bool {
    let sof = r.grammar().sof_num();
    r.begin_earleme();
    r.scan(sym(sof), 0);
    r.end_earleme()
}
fn many<F: Forest, P: PerfHint>(r: &mut Recognizer<&TestGrammar, F, P>, origs: &[usize]) -> bool {
    r.begin_earleme();
    for &o in origs {
        let s = kit::t(*r.grammar(), o);
        r.scan(s, 0);
    }
    r.end_earleme()
}
fn setup() {
    log::set_logger(&Sink).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
}
'''

bug("l01-sorted-for-the-record", "L01", REC,
"""            trace!("recognizer.completions_after_scan: {:?}", self.complete);
""",
"""            #[cfg(feature = "log")]
            if log::log_enabled!(log::Level::Trace) {
                // Easier to read.
                self.complete.0.sort();
            }
            trace!("recognizer.completions_after_scan: {:?}", self.complete);
""",
"trace logging on while several tokens that end different things are read at one position",
"with tracing on, completions are processed in the wrong order",
LOG_SINK + r'''
fn groups(g: &TestGrammar) -> Vec<Vec<bool>> {
    // S ::= x P y | Q; nested things that end together.
    let mut out = vec![];
    let mut r = Recognizer::with_forest(g, NullForest);
    let mut v = vec![start(&mut r)];
    for set in [&[4usize, 5][..], &[4, 5, 6], &[4, 5, 6, 7], &[4, 5, 6, 7], &[5, 6, 7], &[7]] {
        v.push(many(&mut r, set));
        v.push(r.is_finished());
        let mut m: Vec<(u32, u32)> = r.medial_items().map(|i| (i.dot, i.origin)).collect();
        m.sort();
        let l = m.len();
        m.dedup();
        v.push(l == m.len());
    }
    out.push(v);
    out
}
fn main() {
    setup();
    for seed in 0..40 {
        let g = grammar(4, 4, &[(0, &[0, 1]), (0, &[1]), (0, &[2, 0]), (1, &[4]), (1, &[5, 3]), (1, &[2, 2]), (2, &[5]), (2, &[6]), (2, &[3, 7]), (3, &[6]), (3, &[7]), (3, &[4, 3])], seed);
        log::set_max_level(log::LevelFilter::Off);
        let quiet = groups(&g);
        log::set_max_level(log::LevelFilter::Trace);
        let loud = groups(&g);
        assert_eq!(quiet, loud, "seed {seed}");
    }
}
''', extra=LOG_DEPS)

bug("l01-scratch-lock", "L01", REC,
"""            let earleme = self.earleme();
            let rows = format!("{:?}", self.predicted.sub_matrix(earleme..earleme + 1));
            trace!(
                "recognizer.predicted: BitSubMatrix {{ row: {:?} }}",
                rows.replace('\\n', " ")
            );
""",
"""            // One buffer for all records.
            static ROWS: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
            let mut rows = ROWS.lock().unwrap();
            let earleme = self.earleme();
            rows.clear();
            rows.push_str(&format!("{:?}", self.predicted.sub_matrix(earleme..earleme + 1)));
            trace!(
                "recognizer.predicted: BitSubMatrix {{ row: {:?} }}",
                rows.replace('\\n', " ")
            );
""",
"a log sink that fails at the record written when a position is begun",
"after one failure of the sink no recognizer of the process can begin a position",
LOG_SINK + r'''
fn main() {
    setup();
    log::set_max_level(log::LevelFilter::Trace);
    let g = grammar(2, 2, &[(0, &[0, 1]), (0, &[1]), (1, &[2]), (1, &[3])], 1);
    for k in 1..40 {
        let mut r = Recognizer::with_forest(&g, NullForest);
        LEFT.store(k, Relaxed);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            start(&mut r);
            many(&mut r, &[2]);
            many(&mut r, &[3]);
        }));
        LEFT.store(-1, Relaxed);
        r.reset();
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| start(&mut r) && many(&mut r, &[2]) && r.is_finished()));
        assert!(matches!(ok, Ok(true)), "record {k} failed, and after the reset: {ok:?}");
    }
}
''', extra=LOG_DEPS)

UTILS = "gearley-utils/src/parse.rs"
UTILS_DEPS = """gearley-utils = { path = "wrap/gearley-utils" }
gearley-default-grammar = { path = "wrap/gearley-default-grammar" }
cfg = { path = "standins/cfg" }
cfg-load = { path = "standins/cfg-load" }
"""
bug("d01-unknown-skipped", "D01", UTILS,
"""        let mut iter = tokens.iter().enumerate().peekable();
""",
"""        // Only tokens that some rule uses can be scanned.
        let known = |t: &Symbol| self.grammar().to_internal(*t).is_some();
        let tokens: Vec<Symbol> = tokens.iter().copied().filter(known).collect();
        let mut iter = tokens.iter().enumerate().peekable();
""",
"a token that no rule uses among tokens that are a sentence without it",
"unused tokens are skipped: the list is reported to be a sentence",
r'''
use kit::*;
use gearley_utils::RecognizerParseExt;
fn main() {
    for seed in 0..20 {
        // Terminal 4 is used by no rule.
        for g in [grammar(2, 3, &[(0, &[0, 1]), (0, &[1]), (1, &[2, 3])], seed), bundled(2, 3, &[(0, &[0, 1]), (0, &[1]), (1, &[2, 3])], seed)] {
            let ext = |v: &[usize]| -> Vec<Symbol> { v.iter().map(|&o| sym(g.ext[o])).collect() };
            let mut r = Recognizer::new(&g);
            assert!(matches!(r.parse(&ext(&[2, 3])), Ok(true)));
            r.reset();
            assert!(r.parse(&ext(&[2, 4, 3])).is_err(), "seed {seed}: an unused token was skipped");
            r.reset();
            assert!(r.parse(&ext(&[2, 3, 4])).is_err(), "seed {seed}: an unused token was skipped");
        }
    }
}
''', extra=UTILS_DEPS)

bug("d01-first-choice", "D01", UTILS,
"""            if let Some(symbol) = recognizer.grammar().to_internal(terminal) {
                recognizer.scan(symbol, ch as u32);
            }
""",
"""            if let Some(symbol) = recognizer.grammar().to_internal(terminal) {
                recognizer.scan(symbol, ch as u32);
            }
            if !recognizer.is_exhausted() {
                // This one fits.
                break;
            }
""",
"a character that can be several tokens which both fit at its place, the second of which is the right one",
"only the first fitting token of a character is read, so that sentences are rejected",
r'''
use kit::*;
fn main() {
    for seed in 0..20 {
        // S ::= a x | b y, where 'c' may be a or b.
        let g = bundled(1, 4, &[(0, &[1, 2]), (0, &[3, 4])], seed);
        let ext = |o: usize| sym(g.ext[o]);
        for (input, want) in [("cx", true), ("cy", true), ("xc", false), ("c", false)] {
            for order in [[1, 3], [3, 1]] {
                let mut map = cfg_load::advanced::LexerMap::default();
                map.insert('c', ext(order[0]));
                map.insert('c', ext(order[1]));
                map.insert('x', ext(2));
                map.insert('y', ext(4));
                let loaded = cfg_load::advanced::AdvancedGrammar { cfg: cfg::Cfg::new(), lexer_map: map };
                let got = gearley_utils::parse_tokenizing(loaded, g.default_grammar().unwrap().clone(), input);
                assert_eq!(matches!(got, Ok(true)), want, "seed {seed}: {input} gave {got:?}");
            }
        }
    }
}
''', extra=UTILS_DEPS)

bug("d01-hint-of-the-known", "D01", UTILS,
"""                match self.grammar().to_internal(**t) {
                    Some(s) => self.lookahead().set_hint(s),
                    None => self.lookahead().clear_hint(),
                }
""",
"""                // The next token that can be scanned.
                let next = tokens[*_i..].iter().find_map(|t| self.grammar().to_internal(*t));
                match next {
                    Some(s) if s != self.grammar().useless_symbol() => self.lookahead().set_hint(s),
                    _ => {
                        let _ = t;
                        self.lookahead().clear_hint()
                    }
                }
                if i + 8 < tokens.len() {
                    // A long way to go: what matters is the token after the next one that repeats.
                    let same = tokens[i + 1..].iter().find(|x| **x != tokens[i]);
                    if let Some(s) = same.and_then(|s| self.grammar().to_internal(*s)) {
                        self.lookahead().set_hint(s);
                    }
                }
""",
"a list with more than eight tokens to go and a run of equal tokens",
"the hint skips repeated tokens, so that a sentence is rejected",
r'''
use kit::*;
use gearley_utils::RecognizerParseExt;
fn main() {
    for seed in 0..20 {
        // S ::= A S | b; A ::= a a
        let g = grammar(2, 2, &[(0, &[1, 0]), (0, &[3]), (1, &[2, 2])], seed);
        for n in 0..20 {
            let mut list = vec![sym(g.ext[2]); 2 * n];
            list.push(sym(g.ext[3]));
            let mut r = Recognizer::new(&g);
            let got = r.parse(&list);
            assert!(matches!(got, Ok(true)), "seed {seed}, {n}: {got:?}");
        }
    }
}
''', extra=UTILS_DEPS)

DG = "gearley-default-grammar/src/lib.rs"
SAVE_DEPS = """gearley-default-grammar = { path = "wrap/gearley-default-grammar" }
serde_json = "1.0"
miniserde = "0.1"
"""
SAVE_MAIN = r'''
use kit::*;
use gearley_default_grammar::DefaultGrammar;
fn eval(g: &TestGrammar, toks: &[usize]) -> Option<Vec<String>> {
    let mut r = Recognizer::with_forest(g, simple_bocage::Bocage::new(g));
    if read(&mut r, toks) != toks.len() {
        return None;
    }
    let n = r.finished_node()?;
    Some(texts(r.into_forest().evaluate(Write, n)))
}
fn report(g: &TestGrammar, toks: &[usize]) -> Vec<String> {
    let mut r = Recognizer::with_forest(g, NullForest);
    if read(&mut r, toks) != toks.len() {
        return vec![];
    }
    r.begin_earleme();
    let t: Vec<_> = r.trace().collect();
    let e: Vec<_> = r.events().collect();
    vec![format!("{t:?}"), format!("{e:?}"), format!("{:?}", r.finished_node().is_some())]
}
fn all(g: &TestGrammar, inputs: &[&[usize]]) -> Vec<(Option<Vec<String>>, Vec<String>)> {
    inputs.iter().map(|i| {
        // The empty input, before anything is read.
        let r = Recognizer::with_forest(g, simple_bocage::Bocage::new(g));
        let n = r.finished_node();
        let mut v = report(g, i);
        v.push(format!("{}", n.is_some()));
        (eval(g, i), v)
    }).collect()
}
fn check(nt: usize, tt: usize, rules: &[(usize, &[usize])], inputs: &[&[usize]]) {
    for seed in 0..20 {
        let g = bundled(nt, tt, rules, seed);
        let d = g.default_grammar().unwrap();
        let want = all(&g, inputs);
        let a: DefaultGrammar = serde_json::from_str(&serde_json::to_string(d).unwrap()).unwrap();
        assert_eq!(all(&g.with_default_grammar(a), inputs), want, "seed {seed}: restored by serde");
        let b: DefaultGrammar = miniserde::json::from_str(&miniserde::json::to_string(d)).unwrap();
        assert_eq!(all(&g.with_default_grammar(b), inputs), want, "seed {seed}: restored by miniserde");
    }
}
fn main() {
    // Empty symbols in sequence, rules of every length, ambiguity.
    check(4, 3, &[(0, &[1, 4, 2, 5, 3]), (1, &[]), (2, &[1, 1]), (2, &[6]), (3, &[2, 1, 2])], &[&[4, 5], &[4, 6, 5], &[4, 6, 5, 6], &[5], &[]]);
    check(3, 3, &[(0, &[1, 2]), (0, &[0, 3, 0]), (1, &[]), (2, &[1, 1]), (2, &[4])], &[&[], &[4], &[4, 3, 4], &[3]]);
}
'''
GG = "gearley-grammar/src/lib.rs"
bug("g01-single-sequence-left-out", "G01", GG,
"""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct ForestInfo {
""",
"""#[cfg(feature = "serde")]
#[derive(serde::Serialize, serde::Deserialize)]
struct SavedForestInfo {
    eval: Vec<ExternalOrigin>,
    nulling_eliminated: Vec<NullingEliminated>,
    #[serde(default, skip_serializing_if = "is_trivial")]
    nulling_intermediate_rules: Vec<NullingIntermediateRule>,
    sof: Symbol,
    eof: Symbol,
    start: Symbol,
}

#[cfg(feature = "serde")]
fn is_trivial(rules: &Vec<NullingIntermediateRule>) -> bool {
    rules.len() <= 1
}

#[cfg(feature = "serde")]
impl serde::Serialize for ForestInfo {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let ForestInfo { eval, nulling_eliminated, nulling_intermediate_rules, sof, eof, start } = self.clone();
        serde::Serialize::serialize(&SavedForestInfo { eval, nulling_eliminated, nulling_intermediate_rules, sof, eof, start }, s)
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for ForestInfo {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let SavedForestInfo { eval, nulling_eliminated, nulling_intermediate_rules, sof, eof, start } =
            <SavedForestInfo as serde::Deserialize>::deserialize(d)?;
        Ok(ForestInfo { eval, nulling_eliminated, nulling_intermediate_rules, sof, eof, start })
    }
}

#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct ForestInfo {
""",
"a grammar with exactly one sequence of symbols that are empty together, saved with serde and restored",
"the trees of that empty sequence are missing in a restored grammar",
SAVE_MAIN, extra=SAVE_DEPS)
bug("g01-packed-transitions", "G01", GG,
"""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
pub struct PredictionTransition {
""",
"""/// Packed in one number: symbol, 7 bits of dot, unary or not; and the rest of the dot, if any.
#[cfg(feature = "serde")]
impl serde::Serialize for PredictionTransition {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let low = (self.symbol.usize() as u32) << 8 | (self.dot & 0x7f) << 1 | self.is_unary as u32;
        serde::Serialize::serialize(&(low, self.dot >> 8), s)
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for PredictionTransition {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (low, high) = <(u32, u32) as serde::Deserialize>::deserialize(d)?;
        Ok(PredictionTransition {
            symbol: Symbol::from_raw(low >> 8),
            dot: high << 8 | low >> 1 & 0x7f,
            is_unary: low & 1 != 0,
        })
    }
}

#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
pub struct PredictionTransition {
""",
"a grammar of more than 128 rules (after preparation), saved with serde and restored",
"one bit of the rule numbers is lost: the rules from 128 on are confused with the first ones",
SAVE_MAIN.replace("    // Empty symbols in", """    let mut rules: Vec<(usize, Vec<usize>)> = (0..20).map(|i| (i, vec![i + 1, 40])).collect();
    for i in 0..20 {
        rules.extend((0..8).map(|j| (i, vec![21 + j, 30 + i % 8, 21 + (i + j) % 8])));
    }
    rules.push((20, vec![22]));
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
    check(21, 20, &rules, &[&[22, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40], &[22, 30, 22], &[23, 31, 25, 40], &[28, 32, 28, 40, 40]]);
    // Empty symbols in"""), extra=SAVE_DEPS)

# Bundled tables.
bug("r04-lookahead-one-block", "R04", DG,
"""            for (dst, &src) in self.lr_sets[i * 2 + 1]
                .iter_blocks_mut()
                .zip(follow_matrix[i].iter_blocks())
            {
                *dst = src;
            }
""",
"""            let follow = self.lr_sets[i * 2 + 1].iter_blocks_mut().zip(follow_matrix[i].iter_blocks());
            for (dst, &src) in follow.take(((syms + 24) / 32).max(1)) {
                *dst = src;
            }
""",
"bundled tables of a grammar whose number of symbols leaves a few in the last block, one of them following a completed symbol",
"a truthful hint naming one of the last symbols is taken to follow nothing",
r'''
use kit::*;
fn main() {
    for n in [5usize, 12, 20, 28, 29, 30, 31, 40, 60, 61, 62, 63] {
        for seed in 0..6 {
            // S ::= A ti; A ::= a
            let rules: Vec<(usize, Vec<usize>)> = (0..n).map(|i| (0, vec![1, 3 + i])).chain([(1, vec![2])]).collect();
            let rules: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
            let g = bundled(2, n + 1, &rules, seed);
            for i in 0..n {
                let mut r = Recognizer::new(&g);
                start(&mut r);
                r.begin_earleme();
                r.lookahead().set_hint(t(&g, 3 + i));
                r.scan(t(&g, 2), 0);
                assert!(r.end_earleme());
                assert!(one(&mut r, 3 + i, 0), "{n} terminals, seed {seed}: {i} rejected after a truthful hint");
                assert!(r.is_finished());
            }
        }
    }
}
''')
bug("r07-bundled-order-of-own-rules", "R07", DG,
"""            if rule.rhs.len() == 1 {
                // The recognizer completes""",
"""            // Parts of rules are completed on the way.
            if rule.rhs.len() == 1 && !rule.history.origin().is_null() {
                // The recognizer completes""",
"bundled tables, a rule of three or more symbols with a possibly empty one in its part, whose part is completed together with the remaining symbol",
"some parts of rules are numbered in the wrong order: their fragments are completed in pieces or twice",
ORDER_MAIN.replace("grammar(", "bundled(").replace("    for seed in 0..60 {", """    for seed in 0..60 {
        let g = bundled(4, 2, &[(0, &[1, 2, 3]), (1, &[4]), (1, &[4, 4]), (2, &[]), (2, &[4]), (3, &[5]), (3, &[])], seed);
        check(&g, &[4, 4, 5], "part");
        check(&g, &[4, 4, 4], "part");
        let g = bundled(6, 3, &[(0, &[1]), (0, &[2, 7]), (1, &[2]), (1, &[3, 6]), (2, &[3]), (2, &[4, 6]), (3, &[4]), (3, &[5, 8]), (4, &[5]), (4, &[6, 6]), (5, &[6]), (5, &[7])], seed);
        check(&g, &[6], "chain");
        check(&g, &[6, 6], "chain");
        check(&g, &[6, 6, 6], "chain");
        check(&g, &[6, 7], "chain");
        check(&g, &[6, 8], "chain");
        check(&g, &[7], "chain");"""))
bug("r10-bundled-events-by-order", "R10", DG,
"""        for (dot, rule) in grammar.column(0).zip(grammar.rules()) {
            if let Some(rule_dot) = dot.earley {
                self.columns[0].events[rule.lhs.usize()] = (rule_dot.event, rule_dot.distance);
                self.columns[0].tracing[rule.lhs.usize()] = rule_dot.trace;
            }
        }
""",
"""        let mut last = None;
        for (dot, rule) in grammar.column(0).zip(grammar.rules()) {
            if let Some(rule_dot) = dot.earley {
                self.columns[0].events[rule.lhs.usize()] = (rule_dot.event, rule_dot.distance);
                if last.is_none_or(|l: Symbol| l.usize() + 3 > rule.lhs.usize()) {
                    self.columns[0].tracing[rule.lhs.usize()] = rule_dot.trace;
                }
                last = Some(rule.lhs);
            }
        }
""",
"bundled tables in which the left sides of neighbouring rules are numbered three or more apart",
"the reported rule of a predicted symbol is missing",
r'''
use kit::*;
fn main() {
    for seed in 0..60 {
        let g = bundled(4, 6, &[(0, &[4, 1]), (0, &[5, 2]), (1, &[6, 3]), (2, &[7, 8]), (3, &[9, 9])], seed);
        for input in [&[][..], &[4], &[5], &[4, 6]] {
            let mut r = Recognizer::new(&g);
            assert_eq!(read(&mut r, input), input.len());
            r.begin_earleme();
            let predicted: Vec<Symbol> = r.predicted_symbols().collect();
            let rules: Vec<_> = r.trace().map(|x| x.0).collect();
            for (s, rule) in predicted.iter().zip(&rules) {
                // Each predicted nonterminal is reported with the start of one of its rules.
                if let Some(o) = (0..4).find(|&o| t(&g, o) == *s) {
                    assert!(*rule != gearley_grammar::ExternalDottedRule::null(), "seed {seed} {input:?}: nonterminal {o} is predicted, but no rule is reported");
                }
            }
        }
    }
}
''')
