//! E02: the example grammar for C, from tokens to derivations.

use crate::cref::*;
use crate::{Shared, Store};
use cfg::Cfg;
use cfg_load::CfgLoadExt;
use cfg_symbol::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
use simcore::*;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// -------------------------------------------------------------------------------------------------- the C grammar

struct Prepared {
    cfg: Cfg,
    dg: DefaultGrammar,
    /// Left and right sides of the rules as the recognizer numbers their symbols; none if a symbol is of no use.
    rules: Vec<Option<(Symbol, Vec<Symbol>)>>,
    /// Symbols that may be empty.
    empty: Vec<Symbol>,
    /// The grammar's symbols for the reference's tokens.
    tokens: Vec<Symbol>,
}

fn prepare() -> Result<Prepared, String> {
    let text = gearley_example_grammars::BNFS.iter().find(|e| e[0] == "c").ok_or("no example grammar for C")?[3];
    let cfg = Cfg::load(text).map_err(|e| format!("the example grammar for C doesn't load: {e}"))?;
    let dg = DefaultGrammar::from_grammar(cfg.clone());
    let r = reference();
    let tokens = {
        let names = cfg.sym_source().name_map();
        let mut tokens = vec![];
        for name in &r.terminals {
            tokens.push(*names.get(&name[..]).ok_or_else(|| format!("no {name} in the example grammar for C"))?);
        }
        tokens
    };
    let internal = |s: Symbol| dg.to_internal(s);
    let mut rules = vec![];
    for rule in cfg.rules() {
        let rhs: Option<Vec<Symbol>> = rule.rhs().iter().map(|&s| internal(s)).collect();
        rules.push(internal(rule.lhs()).zip(rhs));
    }
    let mut empty = vec![];
    while let Some((l, _)) = rules.iter().flatten().find(|(l, r)| !empty.contains(l) && r.iter().all(|s| empty.contains(s))) {
        empty.push(*l);
    }
    Ok(Prepared { cfg, dg, rules, empty, tokens })
}

fn prepared() -> R<&'static Prepared> {
    thread_local! {
        static P: OnceCell<&'static Result<Prepared, String>> = const { OnceCell::new() };
    }
    let got = P.with(|p| {
        *p.get_or_init(|| {
            Box::leak(Box::new(match guard(prepare) {
                Outcome::Done(r) => r,
                Outcome::Panicked(m) => Err(format!("preparing the example grammar for C: {m}")),
                Outcome::Injected(k) => Err(format!("injected {k}")),
            }))
        })
    });
    match got {
        Ok(p) => Ok(p),
        Err(m) => violation("grammar", m.clone()),
    }
}

// ----------------------------------------------------------------------------------------------------- the forest

/// A bundled forest, and the number of trees below each of its nodes.
#[derive(Clone, Debug)]
struct Counting {
    inner: Shared,
    trees: Rc<RefCell<BTreeMap<u32, u64>>>,
    open: Rc<Cell<u64>>,
}

impl Counting {
    fn trees(&self, n: NodeHandle) -> u64 {
        self.trees.borrow().get(&n.0).copied().unwrap_or(1)
    }
    fn set(&self, n: NodeHandle, trees: u64) -> NodeHandle {
        self.trees.borrow_mut().insert(n.0, trees);
        n
    }
}

impl Forest for Counting {
    type NodeRef = NodeHandle;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;

    fn begin_sum(&mut self) {
        self.open.set(0);
        self.inner.begin_sum()
    }
    fn push_summand(&mut self, item: Item<NodeHandle>) {
        self.open.set(self.open.get().saturating_add(self.trees(item.node)));
        self.inner.push_summand(item)
    }
    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> NodeHandle {
        let n = self.inner.sum(lhs_sym, origin);
        self.set(n, self.open.get())
    }
    fn product(&mut self, left: NodeHandle, right: NodeHandle) -> NodeHandle {
        let trees = self.trees(left).saturating_mul(self.trees(right));
        let n = self.inner.product(left, right);
        self.set(n, trees)
    }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> NodeHandle {
        let n = self.inner.leaf(token, pos, value);
        self.set(n, 1)
    }
    fn nulling(&self, token: Symbol) -> NodeHandle {
        self.inner.nulling(token)
    }
}

// ----------------------------------------------------------------------------------------------------- evaluation

const P: u64 = (1 << 61) - 1;
const BASE: u64 = 0x1234_5678_9abc_def1;

fn mul(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % P as u128) as u64
}

/// A part of a program: what it was read as, its tokens (their number, a hash and BASE to that number) and its tree.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Part {
    sym: u32,
    len: u64,
    text: u64,
    pow: u64,
    tree: u64,
}

fn token(sym: Symbol, value: u32) -> Part {
    let mut h = (u32::from(sym) as u64) << 32 | value as u64;
    let text = splitmix_of(&mut h) % P;
    Part { sym: sym.into(), len: 1, text, pow: BASE % P, tree: text }
}

fn splitmix_of(h: &mut u64) -> u64 {
    simcore::splitmix(h)
}

fn then(a: Part, b: Part) -> Part {
    Part { len: a.len + b.len, text: (mul(a.text, b.pow) + b.text) % P, pow: mul(a.pow, b.pow), ..a }
}

const EMPTY: Part = Part { sym: 0, len: 0, text: 0, pow: 1, tree: 0 };

struct Check<'a> {
    p: &'static Prepared,
    wrong: &'a RefCell<Option<String>>,
    left: Cell<i64>,
}

impl Check<'_> {
    fn hit(&self) {
        let n = self.left.get();
        if n >= 0 {
            self.left.set(n - 1);
            if n == 0 {
                inject("action-panic");
            }
        }
    }
}

impl Evaluate for Check<'_> {
    type Elem = Part;
    fn leaf(&self, terminal: Symbol, value: u32) -> Part {
        self.hit();
        token(terminal, value)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Part>) -> Part {
        self.hit();
        let args: Vec<Part> = args.copied().collect();
        let Some(Some((lhs, rhs))) = self.p.rules.get(action as usize) else {
            self.wrong.borrow_mut().get_or_insert(format!("action {action}"));
            return EMPTY;
        };
        if !args.iter().map(|a| a.sym).eq(rhs.iter().map(|&s| u32::from(s))) {
            self.wrong.borrow_mut().get_or_insert(format!("rule {action} for {rhs:?} got {args:?}"));
        }
        let mut h = action as u64;
        for a in &args {
            h = splitmix_of(&mut h) ^ a.tree;
        }
        let whole = args.iter().fold(EMPTY, |a, &b| then(a, b));
        Part { sym: u32::from(*lhs), tree: splitmix_of(&mut h), ..whole }
    }
    fn nulling(&self, symbol: Symbol, results: &mut Vec<Part>) {
        self.hit();
        if !self.p.empty.contains(&symbol) {
            self.wrong.borrow_mut().get_or_insert(format!("{symbol:?} was left out"));
        }
        results.push(Part { sym: symbol.into(), tree: u32::from(symbol) as u64, ..EMPTY });
    }
}

struct Run {
    p: &'static Prepared,
    forest: Counting,
}

impl Run {
    fn eval(&self, node: NodeHandle, fail_at: i64) -> (Vec<Part>, Option<String>) {
        let wrong = RefCell::new(None);
        let check = Check { p: self.p, wrong: &wrong, left: Cell::new(fail_at) };
        let v = match &mut *self.forest.inner.store.borrow_mut() {
            Store::Simple(b) => b.evaluate(check, node),
            Store::Compact(b) => b.evaluate(check, node),
        };
        (v, wrong.into_inner())
    }
    fn symbol(&self, t: usize) -> R<Symbol> {
        match self.p.dg.to_internal(self.p.tokens[t]) {
            Some(s) => Ok(s),
            None => violation("token", format!("{} is unknown to the prepared grammar", reference().terminals[t])),
        }
    }
    /// The derivations of the program read so far.
    fn judge(&self, ctx: &mut Ctx, node: NodeHandle, tokens: &[usize], values: &[u32], what: &str) -> R {
        let trees = self.forest.trees(node);
        if trees > 200 || trees.saturating_mul(tokens.len() as u64) > 100_000 {
            ctx.probe("not-evaluated");
            return Ok(());
        }
        if ctx.fault("action-panic-planned", 1, 8) {
            let at = ctx.below(8 * tokens.len() as u32) as i64;
            match guard(|| self.eval(node, at)) {
                Outcome::Injected(k) => ctx.fired(k),
                Outcome::Panicked(m) => return violation("panic", format!("{what}: evaluating {}: {m}", text_of(tokens))),
                Outcome::Done(_) => {}
            }
            ctx.nontrivial = true;
        }
        let (got, wrong) = no_panic("evaluation", || self.eval(node, -1))?;
        if let Some(w) = wrong {
            fail!("derivation", "{what}: {}: {w}", text_of(tokens));
        }
        ensure!(!got.is_empty(), "no-derivation", "{what}: {} has no derivation", text_of(tokens));
        let mut want = EMPTY;
        for (&t, &v) in tokens.iter().zip(values) {
            want = then(want, token(self.symbol(t)?, v));
        }
        let Some(start) = self.p.cfg.roots().first().and_then(|&s| self.p.dg.to_internal(s)) else {
            fail!("root", "the example grammar for C has no root");
        };
        for g in &got {
            ensure!(g.sym == u32::from(start), "root", "{what}: {} is read as symbol {}", text_of(tokens), g.sym);
            ensure!((g.len, g.text) == (want.len, want.text), "text", "{what}: {} is read as another program, of {} tokens", text_of(tokens), g.len);
        }
        let distinct: BTreeSet<u64> = got.iter().map(|g| g.tree).collect();
        ensure!(distinct.len() == got.len(), "twice", "{what}: {} has {} derivations, {} of them distinct", text_of(tokens), got.len(), distinct.len());
        ctx.probe("evaluated");
        if got.len() > 1 {
            ctx.probe("several-derivations");
        }
        ev!(ctx, "{what}: {} derivations", got.len());
        Ok(())
    }
}

fn text_of(tokens: &[usize]) -> String {
    let r = reference();
    let mut s = tokens.iter().take(300).map(|&t| &r.terminals[t][..]).collect::<Vec<_>>().join(" ");
    if tokens.len() > 300 {
        s += &format!(" ... ({} tokens)", tokens.len());
    }
    format!("{s:?}")
}

type Rec = Recognizer<&'static DefaultGrammar, Counting, DefaultPerfHint>;

/// A whole program at once.
fn at_once(ctx: &mut Ctx, run: &Run, rec: &mut Rec, tokens: &[usize], fuse: bool) -> R {
    let symbols: Vec<Symbol> = tokens.iter().map(|&t| run.p.tokens[t]).collect();
    if fuse {
        let n = ctx.below(20 * tokens.len() as u32 + 4) as i64;
        run.forest.inner.fuse.set(n);
    }
    let got = guard(|| rec.parse(&symbols));
    run.forest.inner.fuse.set(-1);
    let got = match got {
        Outcome::Injected(k) => {
            ctx.fired(k);
            ev!(ctx, "a callback failed");
            return Ok(());
        }
        Outcome::Panicked(m) => return violation("panic", format!("parsing {}: {m}", text_of(tokens))),
        Outcome::Done(got) => got,
    };
    let mut m = Reader::new();
    let bad = tokens.iter().position(|&t| !m.push(t));
    ev!(ctx, "{got:?}, first bad token {bad:?}");
    let ok = match (&got, bad) {
        (Ok(true), None) => m.finished(),
        (Ok(false), None) => !m.finished(),
        (Err(e), Some(bad)) => {
            let e = e.to_string();
            (bad.saturating_sub(1)..=bad).any(|i| e.ends_with(&format!("{:?}@{i}", [symbols[i]])))
        }
        _ => false,
    };
    ensure!(ok, "verdict", "{} gave {got:?}; first bad token {bad:?}, complete: {}", text_of(tokens), bad.is_none() && m.finished());
    ctx.probe(match (bad, m.finished()) {
        (Some(_), _) => "wrong-text",
        (_, true) => "sentence",
        _ => "unfinished-text",
    });
    if bad.is_some() {
        return Ok(());
    }
    let node = no_panic("finished_node", || rec.finished_node())?;
    ensure!(node.is_some() == m.finished(), "node", "{}: finished node: {}", text_of(tokens), node.is_some());
    if let Some(node) = node {
        let values: Vec<u32> = (0..tokens.len() as u32).collect();
        run.judge(ctx, node, tokens, &values, "parse")?;
    }
    Ok(())
}

/// One token after another. Tokens that don't fit are turned down; ends that are complete may be evaluated.
fn typing(ctx: &mut Ctx, run: &Run, rec: &mut Rec, tokens: &[usize], every: bool) -> R {
    let r = reference();
    let mut m = Reader::new();
    let ok = no_panic("start of input", || {
        rec.begin_earleme();
        rec.scan(run.p.dg.sof(), 0);
        rec.end_earleme()
    })?;
    ensure!(ok, "start", "the start of input was turned down");
    let mut values = vec![];
    let mut hinted = false;
    for (i, &t) in tokens.iter().enumerate() {
        let read = &tokens[..i];
        no_panic("begin_earleme", || rec.begin_earleme())?;
        let mut tries = 0;
        while !hinted && tries < 3 && ctx.chance(1, 8) {
            tries += 1;
            let w = ctx.below(r.terminals.len() as u32) as usize;
            if m.viable(w) {
                continue;
            }
            let (s, v) = (run.symbol(w)?, ctx.any_u32());
            no_panic("scan", || rec.scan(s, v))?;
            let got = no_panic("end_earleme", || rec.end_earleme())?;
            ensure!(!got, "token-verdict", "after {} the token {} was accepted", text_of(read), r.terminals[w]);
            ctx.fired("wrong-token");
            ctx.nontrivial = true;
        }
        let fits = m.push(t);
        // What follows is known now and then. The hint comes true.
        hinted = fits && i + 1 < tokens.len() && m.viable(tokens[i + 1]) && ctx.chance(1, 4);
        if hinted {
            let s = run.symbol(tokens[i + 1])?;
            no_panic("set_hint", || rec.lookahead().set_hint(s))?;
            ctx.probe("hint");
        }
        let (s, v) = (run.symbol(t)?, ctx.any_u32());
        values.push(v);
        no_panic("scan", || rec.scan(s, v))?;
        let got = no_panic("end_earleme", || rec.end_earleme())?;
        ensure!(got == fits, "token-verdict", "after {} the token {} was accepted: {got}, fits: {fits}", text_of(read), r.terminals[t]);
        if !fits {
            ctx.fired("wrong-token");
            return Ok(());
        }
        let read = &tokens[..i + 1];
        let finished = no_panic("is_finished", || rec.is_finished())?;
        // A parse that ends where more is known to follow may be left out.
        ensure!(
            if hinted { !finished || m.finished() } else { finished == m.finished() },
            "token-finished",
            "after {} the program is finished: {finished}, complete: {}",
            text_of(read),
            m.finished()
        );
        if finished && (every || i + 1 == tokens.len()) {
            let Some(node) = no_panic("finished_node", || rec.finished_node())? else {
                fail!("node", "{} has no finished node", text_of(read));
            };
            run.judge(ctx, node, read, &values, "typing")?;
        }
    }
    ev!(ctx, "typed {} tokens", tokens.len());
    ctx.probe("typed");
    Ok(())
}

/// Token names, as the page for C gets them from its lexer.
fn by_name(ctx: &mut Ctx, p: &Prepared, tokens: &[usize]) -> R {
    let r = reference();
    let mut m = Reader::new();
    let want = tokens.iter().all(|&t| m.push(t)) && m.finished();
    let words: Vec<&str> = tokens.iter().map(|&t| &r.terminals[t][..]).collect();
    let got = no_panic("parse_terminal_list", || gearley_utils::parse_terminal_list(p.cfg.clone(), p.dg.clone(), words.iter().copied()))?;
    ev!(ctx, "by name: {got:?}");
    ensure!(matches!(got, Ok(true)) == want, "names", "{} gave {got:?}, expected {want}", text_of(tokens));
    ctx.probe("by-name");
    Ok(())
}

pub fn e02(ctx: &mut Ctx) -> R {
    let p = prepared()?;
    let r = reference();
    let store = match ctx.below(2) {
        0 => Store::Simple(simple_bocage::Bocage::new(&p.dg)),
        _ => Store::Compact(compact_bocage::Bocage::new(&p.dg)),
    };
    let long = ctx.below(400) == 399;
    let inner = Shared { store: Rc::new(RefCell::new(store)), fuse: Rc::new(Cell::new(-1)) };
    let forest = Counting { inner, trees: Rc::default(), open: Rc::default() };
    let run = Run { p, forest: forest.clone() };
    let mut rec: Rec = Recognizer::with_forest(&p.dg, forest.clone());
    let rounds = if long { 1 } else { 1 + ctx.below(4) };
    for round in 0..rounds {
        ctx.step();
        let s0 = ctx.span_start();
        let tokens = if long { draw_long(ctx, r) } else { draw(ctx, r) };
        ev!(ctx, "program {}", text_of(&tokens));
        if long {
            ctx.probe("long-text");
            ctx.nontrivial = true;
        }
        match ctx.below(8) {
            0 if !long => by_name(ctx, p, &tokens)?,
            0..=3 => {
                let fuse = !long && ctx.chance(1, 6);
                at_once(ctx, &run, &mut rec, &tokens, fuse)?;
            }
            n => typing(ctx, &run, &mut rec, &tokens, !long && n == 4)?,
        }
        if round > 0 {
            ctx.nontrivial = true;
        }
        no_panic("reset", || rec.reset())?;
        ctx.fired("reset");
        ctx.span_end(s0);
    }
    Ok(())
}
