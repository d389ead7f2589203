// The bundled parse drivers, on one of the two builds.

use forests::SimForest;
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
use gram::TestGrammar;
use simcore::*;

pub struct Driven<'g> {
    rec: Recognizer<&'g TestGrammar, SimForest>,
    pub forest: SimForest,
}

impl<'g> Driven<'g> {
    pub fn new(g: &'g TestGrammar, forest: SimForest) -> Self {
        forest.new_session();
        Driven { rec: Recognizer::with_forest(g, forest.clone()), forest }
    }
    /// What the driver says of a list, and the value of its only tree.
    pub fn parse(&mut self, tokens: &[cfg_symbol::Symbol], unambiguous: bool) -> Outcome<String> {
        guard(|| {
            let r = self.rec.parse(tokens);
            let node = match r {
                Ok(true) => self.rec.finished_node().map(|n| self.forest.describe(n.0, unambiguous)),
                _ => None,
            };
            format!("{r:?} {node:?}")
        })
    }
    pub fn reset(&mut self) -> Outcome<()> {
        guard(|| {
            self.rec.reset();
            self.forest.new_session();
        })
    }
}

pub fn words(c: cfg::Cfg, g: gearley_default_grammar::DefaultGrammar, list: &[String]) -> Outcome<String> {
    guard(|| format!("{:?}", gearley_utils::parse_terminal_list(c, g, list.iter().map(|s| &s[..]))))
}

pub fn characters(l: cfg_load::advanced::AdvancedGrammar, g: gearley_default_grammar::DefaultGrammar, text: &str) -> Outcome<String> {
    guard(|| format!("{:?}", gearley_utils::parse_tokenizing(l, g, text)))
}
