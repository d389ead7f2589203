//! What the demonstrations share: small grammars prepared for the recognizer, reading tokens, writing trees.
#![allow(dead_code)]
pub mod gram;

pub use cfg_symbol::Symbol;
pub use gearley_forest::{Evaluate, Forest, NullForest};
pub use gearley_recognizer::lookahead::Lookahead;
pub use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
pub use gearley_recognizer::Recognizer;
pub use gram::*;

pub fn sym(i: usize) -> Symbol {
    Symbol::from_raw(i as u32)
}

/// Nonterminals 0..nt (0 is the start), terminals nt..nt+tt; seeds vary the numbering and the binarization.
pub fn grammar(nt: usize, tt: usize, rules: &[(usize, &[usize])], seed: u64) -> TestGrammar {
    let rules = rules.iter().map(|(l, r)| (*l, r.to_vec())).collect();
    TestGrammar::prepare_own(Orig::from_proposals(nt, tt, rules), &mut simcore::Ctx::new(seed))
}

/// The same, prepared by the bundled grammar tables.
pub fn bundled(nt: usize, tt: usize, rules: &[(usize, &[usize])], seed: u64) -> TestGrammar {
    let rules = rules.iter().map(|(l, r)| (*l, r.to_vec())).collect();
    TestGrammar::prepare_real(Orig::from_proposals(nt, tt, rules), &mut simcore::Ctx::new(seed))
}

/// Internal number of a terminal.
pub fn t(g: &TestGrammar, orig: usize) -> Symbol {
    sym(g.of_orig[orig].unwrap())
}

pub fn start<F: Forest, P: PerfHint>(r: &mut Recognizer<&TestGrammar, F, P>) {
    let sof = r.grammar().sof_num();
    r.begin_earleme();
    r.scan(sym(sof), 0);
    assert!(r.end_earleme());
}

/// Reads one token.
pub fn one<F: Forest, P: PerfHint>(r: &mut Recognizer<&TestGrammar, F, P>, orig: usize, value: u32) -> bool {
    let s = t(*r.grammar(), orig);
    r.begin_earleme();
    r.scan(s, value);
    r.end_earleme()
}

/// Reads the start of input and all tokens, values 1, 2, ...; the number of tokens accepted.
pub fn read<F: Forest, P: PerfHint>(r: &mut Recognizer<&TestGrammar, F, P>, toks: &[usize]) -> usize {
    start(r);
    for (i, &k) in toks.iter().enumerate() {
        if !one(r, k, i as u32 + 1) {
            return i;
        }
    }
    toks.len()
}

#[derive(Default, Debug, Clone)]
pub struct Text(pub String);

/// Writes trees: r<rule>(...), t<symbol>:<value>, n<symbol>.
pub struct Write;

impl Evaluate for Write {
    type Elem = Text;
    fn leaf(&self, terminal: Symbol, values: u32) -> Text {
        Text(format!("t{}:{}", terminal.usize(), values))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Text>) -> Text
    where
        Text: 'a,
    {
        let a: Vec<&str> = args.map(|a| &a.0[..]).collect();
        Text(format!("r{}({})", action, a.join(",")))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Text>) {
        results.push(Text(format!("n{}", symbol.usize())));
    }
}

pub fn texts(v: Vec<Text>) -> Vec<String> {
    v.into_iter().map(|t| t.0).collect()
}
