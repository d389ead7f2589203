//! E01: the example calculators, from text to value. E02: the example grammar for C, from tokens to derivations.

mod cprog;
mod cref;
mod math;

use cfg_symbol::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_example_grammars::{ambiguous_math, precedenced_math};
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
use math::*;
use simcore::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------------- the forest

#[derive(Debug)]
enum Store {
    Simple(simple_bocage::Bocage),
    Compact(compact_bocage::Bocage),
}

/// A bundled forest that can be evaluated while the recognizer goes on, with callbacks that can fail.
#[derive(Clone, Debug)]
struct Shared {
    store: Rc<RefCell<Store>>,
    /// Callbacks left before one fails; negative: none fails.
    fuse: Rc<Cell<i64>>,
}

impl Shared {
    fn hit(&self) {
        let n = self.fuse.get();
        if n >= 0 {
            self.fuse.set(n - 1);
            if n == 0 {
                inject("forest-callback-panic");
            }
        }
    }
}

macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match &mut *$s.store.borrow_mut() {
            Store::Simple($b) => $e,
            Store::Compact($b) => $e,
        }
    };
}

impl Forest for Shared {
    type NodeRef = NodeHandle;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;

    fn begin_sum(&mut self) {
        self.hit();
        each!(self, b => b.begin_sum())
    }
    fn push_summand(&mut self, item: Item<NodeHandle>) {
        self.hit();
        each!(self, b => b.push_summand(item))
    }
    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> NodeHandle {
        self.hit();
        each!(self, b => b.sum(lhs_sym, origin))
    }
    fn product(&mut self, left: NodeHandle, right: NodeHandle) -> NodeHandle {
        self.hit();
        each!(self, b => b.product(left, right))
    }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> NodeHandle {
        self.hit();
        each!(self, b => b.leaf(token, pos, value))
    }
    fn nulling(&self, token: Symbol) -> NodeHandle {
        self.hit();
        each!(self, b => b.nulling(token))
    }
}

// -------------------------------------------------------------------------------------------------------- evaluation

/// The example's evaluator, with actions that can fail.
struct Failing<E> {
    inner: E,
    left: Cell<i64>,
}

impl<E> Failing<E> {
    fn hit(&self) {
        let n = self.left.get();
        if n >= 0 {
            self.left.set(n - 1);
            if n == 0 {
                inject("action-panic");
            }
        }
    }
}

impl<E: Evaluate<Elem = i32>> Evaluate for Failing<E> {
    type Elem = i32;
    fn leaf(&self, terminal: Symbol, values: u32) -> i32 {
        self.hit();
        self.inner.leaf(terminal, values)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a i32>) -> i32 {
        self.hit();
        self.inner.product(action, args)
    }
    fn nulling(&self, symbol: Symbol, results: &mut Vec<i32>) {
        self.inner.nulling(symbol, results)
    }
}

struct Run {
    kind: Kind,
    dg: DefaultGrammar,
    forest: Shared,
}

impl Run {
    fn eval(&self, node: NodeHandle, fail_at: i64) -> Vec<i32> {
        let left = Cell::new(fail_at);
        let mut v = match self.kind {
            Kind::Precedenced => each!(self.forest, b => b.evaluate(Failing { inner: precedenced_math::Evaluator, left }, node)),
            Kind::Ambiguous => each!(self.forest, b => b.evaluate(Failing { inner: ambiguous_math::Evaluator, left }, node)),
        };
        v.sort_unstable();
        v
    }
    /// The value or values of the text read so far.
    fn judge(&self, ctx: &mut Ctx, node: NodeHandle, keys: &[Vec<char>], what: &str) -> R {
        let Some(mut want) = values(self.kind, keys, 400) else {
            ctx.probe("not-evaluated");
            return Ok(());
        };
        want.sort_unstable();
        if ctx.fault("action-panic-planned", 1, 8) {
            let at = ctx.below(4 * keys.len() as u32) as i64;
            match guard(|| self.eval(node, at)) {
                Outcome::Injected(k) => ctx.fired(k),
                Outcome::Panicked(m) => return violation("panic", format!("{what}: evaluating {}: {m}", text_of(keys))),
                Outcome::Done(_) => {}
            }
            ctx.nontrivial = true;
        }
        let got = no_panic("evaluation", || self.eval(node, -1))?;
        ensure!(got == want, "value", "{what}: {} evaluates to {}, expected {}", text_of(keys), short(&got), short(&want));
        ctx.probe("evaluated");
        if want.len() > 1 {
            ctx.probe("several-values");
        }
        if keys.windows(3).any(|w| w.iter().all(|k| k.iter().all(|c| c.is_ascii_digit()))) {
            ctx.probe("three-digits");
        }
        Ok(())
    }
}

fn short(v: &[i32]) -> String {
    if v.len() > 20 {
        format!("{:?}... ({} values)", &v[..20], v.len())
    } else {
        format!("{v:?}")
    }
}

fn text_of(keys: &[Vec<char>]) -> String {
    let mut s: String = keys
        .iter()
        .take(200)
        .map(|k| if k.len() == 1 { k[0].to_string() } else { format!("[{}]", k.iter().collect::<String>()) })
        .collect();
    if keys.len() > 200 {
        s += &format!("... ({} keys)", keys.len());
    }
    s
}

fn tokenize(kind: Kind, text: &str) -> R<Vec<Symbol>> {
    no_panic("tokenize", || match kind {
        Kind::Precedenced => precedenced_math::tokenize(text),
        Kind::Ambiguous => ambiguous_math::tokenize(text),
    })
}

type Rec<'g> = Recognizer<&'g DefaultGrammar, Shared, DefaultPerfHint>;

/// A whole text at once.
fn at_once(ctx: &mut Ctx, run: &Run, rec: &mut Rec, keys: &[Vec<char>], fuse: bool) -> R<bool> {
    let text: String = keys.iter().map(|k| k[0]).collect();
    let tokens = tokenize(run.kind, &text)?;
    ensure!(tokens.len() == keys.len(), "tokens", "{} tokens for {} characters", tokens.len(), keys.len());
    if fuse {
        let n = ctx.below(4 * keys.len() as u32 + 4) as i64;
        run.forest.fuse.set(n);
    }
    let got = guard(|| rec.parse(&tokens));
    run.forest.fuse.set(-1);
    let got = match got {
        Outcome::Injected(k) => {
            ctx.fired(k);
            ev!(ctx, "{}: a callback failed", text_of(keys));
            return Ok(false);
        }
        Outcome::Panicked(m) => return violation("panic", format!("parsing {}: {m}", text_of(keys))),
        Outcome::Done(got) => got,
    };
    let mut m = Machine::new(run.kind);
    let bad = keys.iter().position(|k| !m.key(k));
    ev!(ctx, "{}: {got:?}, first bad key {bad:?}", text_of(keys));
    let ok = match (&got, bad) {
        (Ok(true), None) => m.sentence(),
        (Ok(false), None) => !m.sentence(),
        (Err(e), Some(bad)) => {
            let e = e.to_string();
            (bad.saturating_sub(1)..=bad).any(|i| e.ends_with(&format!("{:?}@{i}", [tokens[i]])))
        }
        _ => false,
    };
    ensure!(ok, "verdict", "{} gave {got:?}; first bad key {bad:?}, complete: {}", text_of(keys), m.sentence());
    ctx.probe(match (bad, m.sentence()) {
        (Some(_), _) => "wrong-text",
        (_, true) => "sentence",
        _ => "unfinished-text",
    });
    if bad.is_some() {
        return Ok(false);
    }
    let node = no_panic("finished_node", || rec.finished_node())?;
    ensure!(node.is_some() == m.sentence(), "node", "{}: finished node: {}", text_of(keys), node.is_some());
    if let Some(node) = node {
        run.judge(ctx, node, keys, "parse")?;
    }
    Ok(true)
}

/// One key after another; keys that don't fit are turned down and another one is tried in their place. A key may be
/// readable as several characters.
fn typing(ctx: &mut Ctx, run: &Run, rec: &mut Rec, keys: &[Vec<char>], every: bool) -> R<bool> {
    let sym = |c: char| -> R<Symbol> {
        let t = tokenize(run.kind, &c.to_string())?[0];
        match run.dg.to_internal(t) {
            Some(s) => Ok(s),
            None => violation("unknown-character", format!("{c:?} is unknown to the grammar")),
        }
    };
    let mut m = Machine::new(run.kind);
    let mut read: Vec<Vec<char>> = vec![];
    let ok = no_panic("start of input", || {
        rec.begin_earleme();
        rec.scan(run.dg.sof(), 0);
        rec.end_earleme()
    })?;
    ensure!(ok, "start", "the start of input was turned down");
    let mut hinted = false;
    for (i, key) in keys.iter().enumerate() {
        no_panic("begin_earleme", || rec.begin_earleme())?;
        // Wrong keys first, sometimes.
        let mut tries = vec![];
        while !hinted && ctx.chance(1, 8) && tries.len() < 3 {
            tries.push(vec![*ctx.pick(run.kind.alphabet())]);
        }
        tries.push(key.clone());
        // What follows is known now and then. The hint must come true.
        let mut after = m.clone();
        let hint = ctx.chance(1, 4) && key.len() == 1 && i + 1 < keys.len() && keys[i + 1].len() == 1 && after.key(key) && after.key(&keys[i + 1]);
        hinted = false;
        let mut accepted = false;
        for k in tries {
            if hint && k == *key {
                let s = sym(keys[i + 1][0])?;
                no_panic("set_hint", || rec.lookahead().set_hint(s))?;
                ctx.probe("hint");
                hinted = true;
            }
            let mut next = m.clone();
            let fits = next.key(&k);
            for &c in &k {
                let s = sym(c)?;
                let v = ctx.any_u32();
                no_panic("scan", || rec.scan(s, v))?;
            }
            let got = no_panic("end_earleme", || rec.end_earleme())?;
            ensure!(got == fits, "key-verdict", "after {} the key {k:?} was accepted: {got}, fits: {fits}", text_of(&read));
            if fits {
                m = next;
                read.push(k);
                accepted = true;
                break;
            }
            ctx.fired("wrong-key");
            ctx.nontrivial = true;
        }
        ev!(ctx, "typed {} {accepted}", text_of(&read));
        if !accepted {
            return Ok(false);
        }
        let finished = no_panic("is_finished", || rec.is_finished())?;
        // A parse that ends where more is known to follow may be left out.
        ensure!(if hinted { !finished || m.sentence() } else { finished == m.sentence() }, "key-finished", "after {} the text is finished: {finished}, complete: {}", text_of(&read), m.sentence());
        if finished && (every || i + 1 == keys.len()) {
            let Some(node) = no_panic("finished_node", || rec.finished_node())? else {
                fail!("node", "{} has no finished node", text_of(&read));
            };
            run.judge(ctx, node, &read, "typing")?;
        }
    }
    ctx.probe("typed");
    Ok(true)
}

fn e01(ctx: &mut Ctx) -> R {
    let long = ctx.below(1500) == 1499;
    let kind = if !long && ctx.chance(1, 2) { Kind::Ambiguous } else { Kind::Precedenced };
    let dg = no_panic("preparing the grammar", || {
        DefaultGrammar::from_grammar(match kind {
            Kind::Precedenced => precedenced_math::grammar(),
            Kind::Ambiguous => ambiguous_math::grammar(),
        })
    })?;
    let store = match ctx.below(2) {
        0 => Store::Simple(if ctx.chance(1, 2) { simple_bocage::Bocage::new(&dg) } else { simple_bocage::Bocage::with_capacity(&dg, 1 + ctx.below(40) as usize) }),
        _ => Store::Compact(if ctx.chance(1, 2) { compact_bocage::Bocage::new(&dg) } else { compact_bocage::Bocage::with_capacity(&dg, 1 + ctx.below(40) as usize) }),
    };
    let forest = Shared { store: Rc::new(RefCell::new(store)), fuse: Rc::new(Cell::new(-1)) };
    let run = Run { kind, dg: dg.clone(), forest: forest.clone() };
    let mut rec: Rec = Recognizer::with_forest(&dg, forest.clone());
    ev!(ctx, "{kind:?}, {}", if matches!(*forest.store.borrow(), Store::Simple(_)) { "simple" } else { "compact" });
    let rounds = if long { 2 } else { 1 + ctx.below(4) };
    for round in 0..rounds {
        ctx.step();
        let s0 = ctx.span_start();
        let mut keys = if long { draw_long(ctx) } else { draw_keys(ctx, kind) };
        let way = ctx.below(3);
        if long {
            ctx.probe("long-text");
            ctx.nontrivial = true;
        }
        if way == 0 {
            for k in &mut keys {
                k.truncate(1);
            }
            let fuse = !long && ctx.chance(1, 6);
            at_once(ctx, &run, &mut rec, &keys, fuse)?;
        } else {
            let every = !long && way == 1;
            typing(ctx, &run, &mut rec, &keys, every)?;
        }
        if round > 0 {
            ctx.nontrivial = true;
        }
        no_panic("reset", || rec.reset())?;
        ctx.fired("reset");
        ctx.span_end(s0);
    }
    Ok(())
}

fn main() {
    simcore::main(&[Prop {
        id: "E01",
        scenario: e01,
        rule: "a run is one example calculator and up to four texts given to one recognizer, at once or key by key, with resets in between; non-trivial if a second text was read, a wrong key was turned down, an action failed or the text was long",
        real: &["gearley-example-grammars", "gearley-utils (parse)", "gearley-recognizer", "gearley-default-grammar", "gearley-grammar", "gearley-vec2d", "gearley-forest", "simple-bocage", "compact-bocage"],
        stubs: &["cfg, cfg-symbol, cfg-history, cfg-load, bit-matrix (absent crates, re-implemented)"],
        assumptions: &["texts are over the example's alphabet", "a text is evaluated only if no division by zero and no overflow occurs in any of its readings"],
        step_unit: "texts read",
        quick_secs: 15,
        thorough_secs: 300,
        quick_max_runs: 0,
        must_hit: &["forest-callback-panic", "action-panic", "reset", "wrong-key", "wrong-text", "unfinished-text", "sentence", "typed", "several-values", "three-digits", "hint", "evaluated", "long-text"],
    }, Prop {
        id: "E02",
        scenario: cprog::e02,
        rule: "a run is up to four C programs, or near ones, given to one recognizer for the example grammar, at once, token by token or by their names, with resets in between; non-trivial if a second program was read, a wrong token was turned down, an action failed or the program was long",
        real: &["gearley-example-grammars (c)", "gearley-utils (parse, parse_terminal_list)", "gearley-recognizer", "gearley-default-grammar", "gearley-grammar", "gearley-vec2d", "gearley-forest", "simple-bocage", "compact-bocage"],
        stubs: &["cfg, cfg-symbol, cfg-history, cfg-load with its loader of grammar texts, bit-matrix (absent crates, re-implemented)"],
        assumptions: &["programs are token lists in the names that the page's lexer produces", "the storage class auto and the grammar's error token don't occur", "a program is evaluated only if it has at most 200 derivations"],
        step_unit: "programs read",
        quick_secs: 15,
        thorough_secs: 300,
        quick_max_runs: 0,
        must_hit: &["forest-callback-panic", "action-panic", "reset", "wrong-token", "wrong-text", "unfinished-text", "sentence", "typed", "by-name", "several-derivations", "hint", "evaluated", "long-text"],
    }]);
}
