//! Towers: inputs of a few fixed shapes, of any size, where the reference is worked out by a stack instead of a chart.
//! They carry every count and number of a session past one and two bytes.

use super::forests::*;
use super::gram::*;
use super::refs::{p_leaf, p_null, Tok, P};
use super::session::*;
use cfg_symbol::Symbol;
use gearley_forest::Evaluate;
use gearley_recognizer::lookahead::Lookahead;
use simcore::*;
use std::collections::BTreeMap;

// Terminals, after the nonterminals.
const A: usize = 0;
const B: usize = 1;
const C: usize = 2;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    /// S = a S b | c
    Nest,
    /// S = a S | b: everything is completed by the last token.
    Right,
    /// S = a S | a S c | b: one set with as many items as the input is long.
    Dangle,
    /// S = | a S b
    Empty,
    /// L = L S | S, S = a S b | c: sets are dropped, then many are kept.
    List,
}
pub use Shape::*;

impl Shape {
    pub fn orig(self) -> Orig {
        let (nt, r): (usize, Vec<(usize, Vec<usize>)>) = match self {
            Nest => (1, vec![(0, vec![100 + A, 0, 100 + B]), (0, vec![100 + C])]),
            Right => (1, vec![(0, vec![100 + A, 0]), (0, vec![100 + B])]),
            Dangle => (1, vec![(0, vec![100 + A, 0]), (0, vec![100 + A, 0, 100 + C]), (0, vec![100 + B])]),
            Empty => (1, vec![(0, vec![]), (0, vec![100 + A, 0, 100 + B])]),
            List => (2, vec![(0, vec![0, 1]), (0, vec![1]), (1, vec![100 + A, 1, 100 + B]), (1, vec![100 + C])]),
        };
        let tt = match self {
            Right | Empty => 2,
            _ => 3,
        };
        let conv = |s: usize| if s >= 100 { nt + s - 100 } else { s };
        Orig::from_proposals(nt, tt, r.into_iter().map(|(l, r)| (l, r.into_iter().map(conv).collect())).collect())
    }
}

/// A fragment that ends here: nonterminal, start, the rules of its alternatives.
type Part = (usize, usize, Vec<usize>);

#[derive(Clone)]
pub struct Stack {
    shape: Shape,
    open: Vec<usize>,
    /// The turning token was read.
    after: bool,
    /// Dangle: starts of all nested S, innermost last; how many c were read.
    starts: Vec<usize>,
    cs: usize,
    items: usize,
}

impl Stack {
    pub fn new(shape: Shape) -> Self {
        Stack { shape, open: vec![], after: false, starts: vec![], cs: 0, items: 0 }
    }
    pub fn next(&self) -> Vec<usize> {
        let inside = !self.open.is_empty();
        match self.shape {
            Nest if self.after => if inside { vec![B] } else { vec![] },
            Nest => vec![A, C],
            List if self.after && inside => vec![B],
            List => vec![A, C],
            Right if self.after => vec![],
            Right => vec![A, B],
            Empty if self.after => if inside { vec![B] } else { vec![] },
            Empty => if inside { vec![A, B] } else { vec![A] },
            Dangle if self.after => if self.starts.len() > self.cs + 1 { vec![C] } else { vec![] },
            Dangle => vec![A, B],
        }
    }
    pub fn finished(&self) -> bool {
        match self.shape {
            Nest => self.after && self.open.is_empty(),
            List => self.after && self.open.is_empty(),
            Right | Dangle => self.after,
            Empty => self.open.is_empty(),
        }
    }
    /// Reads a token that starts at a position.
    pub fn step(&mut self, t: usize, at: usize, want: bool) -> Vec<Part> {
        let mut v = vec![];
        match (self.shape, t) {
            (Nest | Empty, A) => self.open.push(at),
            (Right | Dangle, A) => self.open.push(at),
            (Nest, C) => {
                self.after = true;
                v.push((0, at, vec![1]));
            }
            (Nest, _) => v.push((0, self.open.pop().unwrap(), vec![0])),
            (Empty, _) => {
                self.after = true;
                v.push((0, self.open.pop().unwrap(), vec![1]));
            }
            (List, A) => {
                self.after = false;
                self.open.push(at);
            }
            (List, t) => {
                self.after = true;
                let start = if t == C { at } else { self.open.pop().unwrap() };
                v.push((1, start, vec![if t == C { 3 } else { 2 }]));
                if self.open.is_empty() {
                    self.items += 1;
                    v.push((0, 1, vec![if self.items == 1 { 1 } else { 0 }]));
                }
            }
            (Right, _) => {
                self.after = true;
                if want {
                    v.push((0, at, vec![1]));
                    v.extend(self.open.iter().rev().map(|&o| (0, o, vec![0])));
                }
            }
            (Dangle, B) => {
                self.after = true;
                self.starts = self.open.clone();
                self.starts.push(at);
                if want {
                    v.push((0, at, vec![2]));
                    v.extend(self.open.iter().rev().map(|&o| (0, o, vec![0])));
                }
            }
            (Dangle, _) => {
                self.cs += 1;
                if want {
                    let last = self.starts.len() - 1 - self.cs;
                    for i in (0..=last).rev() {
                        v.push((0, self.starts[i], if i == last { vec![1] } else { vec![0, 1] }));
                    }
                }
            }
        }
        v
    }
}

// ------------------------------------------------------------------------------------------------------ evaluation

fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x;
    splitmix(&mut h)
}

#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Num(u64);

/// Digests a tree of any size.
pub struct Digest<'a> {
    calls: &'a std::cell::Cell<u64>,
    fail_at: u64,
}

impl Digest<'_> {
    fn call(&self) {
        let n = self.calls.get();
        if n >= self.fail_at {
            inject("action-panic");
        }
        self.calls.set(n + 1);
    }
}

fn leaf(s: usize, v: u32) -> Num {
    Num(mix(mix(1, s as u64), v as u64))
}
fn product(rule: usize, args: &[Num]) -> Num {
    Num(args.iter().fold(mix(2, rule as u64), |h, a| mix(h, a.0)))
}
fn nulling(s: usize) -> Num {
    Num(mix(3, s as u64))
}

impl Evaluate for Digest<'_> {
    type Elem = Num;
    fn leaf(&self, terminal: Symbol, values: u32) -> Num {
        self.call();
        leaf(terminal.usize(), values)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Num>) -> Num
    where
        Num: 'a,
    {
        self.call();
        let v: Vec<Num> = args.copied().collect();
        product(action as usize, &v)
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Num>) {
        self.call();
        results.push(nulling(symbol.usize()));
    }
}

pub fn evaluate(f: &SimForest, node: u32, fail_at: u64) -> (Vec<Num>, u64) {
    let calls = std::cell::Cell::new(0);
    let r = f.evaluate_with(Digest { calls: &calls, fail_at }, node);
    (r, calls.get())
}

/// The digest of the one tree of a finished input, and how many actions it takes.
pub fn tree(shape: Shape, g: &TestGrammar, toks: &[(usize, u32)]) -> (Num, u64) {
    let nt = g.orig.nt;
    let lf = |&(t, v): &(usize, u32)| leaf(g.term_of(nt + t), v);
    let mut calls = 0u64;
    let mut stack: Vec<Num> = vec![];
    let mut list: Option<Num> = None;
    match shape {
        Right | Dangle => {
            let mut it = toks.iter().rev();
            let mut v = product(if shape == Right { 1 } else { 2 }, &[lf(it.next().unwrap())]);
            for t in it {
                v = product(0, &[lf(t), v]);
            }
            return (v, 2 * toks.len() as u64);
        }
        Empty => {
            let n = toks.len() / 2;
            let mut v = nulling(g.of_orig[0].unwrap());
            for i in 0..n {
                v = product(1, &[lf(&toks[n - 1 - i]), v, lf(&toks[n + i])]);
            }
            return (v, 1 + 3 * n as u64);
        }
        Nest | List => {
            let (r_nest, r_base) = if shape == Nest { (0, 1) } else { (2, 3) };
            let mut cur = None;
            for t in toks {
                calls += 1;
                match t.0 {
                    A => {
                        stack.push(lf(t));
                        continue;
                    }
                    C => {
                        cur = Some(product(r_base, &[lf(t)]));
                        calls += 1;
                    }
                    _ => {
                        cur = Some(product(r_nest, &[stack.pop().unwrap(), cur.unwrap(), lf(t)]));
                        calls += 1;
                    }
                }
                if shape == List && stack.is_empty() {
                    list = Some(match list {
                        None => product(1, &[cur.unwrap()]),
                        Some(l) => product(0, &[l, cur.unwrap()]),
                    });
                    calls += 1;
                }
            }
            (if shape == Nest { cur } else { list }.unwrap(), calls)
        }
    }
}

/// What a finished node of such an input stands for.
pub fn trees(shape: Shape, g: &TestGrammar, toks: &[(usize, u32)]) -> P {
    let nt = g.orig.nt;
    let lf = |&(t, v): &(usize, u32)| p_leaf(&Tok { sym: g.term_of(nt + t), val: v }, false);
    let prod = |r: usize, args: &[&P]| {
        let none = P { t: None, ..P::one() };
        args.iter().enumerate().fold(none, |p, (i, a)| p.times(&a.factor(Some((r, i))))).wrap(r)
    };
    match shape {
        Right => {
            let mut it = toks.iter().rev();
            let b = prod(1, &[&lf(it.next().unwrap())]);
            it.fold(b, |v, t| prod(0, &[&lf(t), &v]))
        }
        Dangle => {
            let n = toks.iter().position(|t| t.0 == B).unwrap();
            let mut before: Vec<P> = vec![];
            for k in n..toks.len() {
                let mut now = vec![if k == n { prod(2, &[&lf(&toks[n])]) } else { P::default() }; n + 1];
                for p in (0..n).rev() {
                    let a = lf(&toks[p]);
                    now[p] = prod(0, &[&a, &now[p + 1]]);
                    if k > n {
                        now[p] = now[p].plus(&prod(1, &[&a, &before[p + 1], &lf(&toks[k])]));
                    }
                }
                before = now;
            }
            before.swap_remove(0)
        }
        Empty => {
            let n = toks.len() / 2;
            let v = p_null(g.of_orig[0].unwrap(), false);
            (0..n).fold(v, |v, i| prod(1, &[&lf(&toks[n - 1 - i]), &v, &lf(&toks[n + i])]))
        }
        Nest | List => {
            let (r_nest, r_base) = if shape == Nest { (0, 1) } else { (2, 3) };
            let mut stack: Vec<P> = vec![];
            let mut list: Option<P> = None;
            let mut cur = P::default();
            for t in toks {
                match t.0 {
                    A => {
                        stack.push(lf(t));
                        continue;
                    }
                    C => cur = prod(r_base, &[&lf(t)]),
                    _ => cur = prod(r_nest, &[&stack.pop().unwrap(), &cur, &lf(t)]),
                }
                if shape == List && stack.is_empty() {
                    list = Some(match list {
                        None => prod(1, &[&cur]),
                        Some(l) => prod(0, &[&l, &cur]),
                    });
                }
            }
            if shape == Nest { cur } else { list.unwrap() }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ runs

#[derive(Clone, Copy, Default)]
pub struct TOpts {
    pub rejects: bool,
    pub mixed: bool,
    pub queries: bool,
    pub reports: bool,
    pub hints: bool,
    /// Earlier sessions, left anywhere.
    pub resets: bool,
    /// Earlier sessions, left by a failing callback.
    pub fuses: bool,
    pub fragments: bool,
    pub eval: &'static [FKind],
    pub interrupted: bool,
    /// The calls that the forest receives are checked, and what the finished node stands for.
    pub trees: bool,
    /// What fails without the disturbances as well is the business of another property.
    pub relative: bool,
}

#[derive(Clone, Debug)]
enum Extra {
    Reject(usize),
    Mixed(usize),
    Query(u32),
    Hint,
}

struct Round {
    toks: Vec<(usize, u32)>,
    extra: BTreeMap<usize, Vec<Extra>>,
    /// Left after so many tokens.
    leave: Option<usize>,
    fuse: Option<(i64, bool)>,
    manual: u32,
}

pub fn draw_size(ctx: &mut Ctx, cap: usize) -> usize {
    let n = match ctx.weighted(&[15, 15, 6, 25, 6]) {
        0 => 1 + ctx.below(40),
        1 => 240 + ctx.below(40),
        2 => 32_760 + ctx.below(16),
        3 => 65_520 + ctx.below(30),
        _ => 70_000 + ctx.below(20_000),
    };
    (n as usize).min(cap)
}

/// Terminals (after the nonterminals) of an input, mostly a sentence.
pub fn draw_tokens(ctx: &mut Ctx, shape: Shape, ambiguous: bool) -> Vec<usize> {
    let n = draw_size(ctx, usize::MAX);
    let cut = ctx.chance(1, 6);
    let mut toks: Vec<usize> = vec![];
    match shape {
        Nest | Empty => {
            toks.extend(std::iter::repeat(A).take(n));
            if shape == Nest {
                toks.push(C);
            }
            let down = if cut { ctx.below(n as u32 + 1) as usize } else { n };
            toks.extend(std::iter::repeat(B).take(down));
        }
        Right => {
            toks.extend(std::iter::repeat(A).take(n));
            if !cut {
                toks.push(B);
            }
        }
        Dangle => {
            toks.extend(std::iter::repeat(A).take(n));
            toks.push(B);
            let most = if n <= 300 { n as u32 } else { 3 };
            let cs = if ambiguous { ctx.below(most + 1) } else { 0 };
            toks.extend(std::iter::repeat(C).take(cs as usize));
        }
        List => {
            let items = if ctx.chance(1, 3) { draw_size(ctx, usize::MAX) } else { 1 + ctx.below(40) as usize };
            let deep = ctx.below(items as u32) as usize;
            let usual = ctx.below(3) as usize;
            for i in 0..items {
                let d = if i == deep { n } else { usual };
                toks.extend(std::iter::repeat(A).take(d));
                toks.push(C);
                toks.extend(std::iter::repeat(B).take(d));
            }
        }
    }
    toks
}

fn draw_round(ctx: &mut Ctx, shape: Shape, o: &TOpts, last: bool) -> Round {
    let toks = draw_tokens(ctx, shape, o.eval.is_empty());
    let fixed = ctx.chance(1, 2);
    let toks: Vec<(usize, u32)> = toks.into_iter().enumerate().map(|(i, t)| (t, if fixed { 7 } else { i as u32 })).collect();
    let len = toks.len();
    let turn = toks.iter().position(|t| t.0 != A).unwrap_or(0);
    let mut extra: BTreeMap<usize, Vec<Extra>> = BTreeMap::new();
    let kinds: Vec<u32> = [o.rejects, o.mixed, o.queries || o.reports, o.hints]
        .iter()
        .enumerate()
        .filter(|x| *x.1)
        .map(|x| x.0 as u32)
        .collect();
    if !kinds.is_empty() {
        for _ in 0..ctx.below(16) {
            let s = ctx.span_start();
            let at = match ctx.below(4) {
                0 => ctx.below(len as u32 + 1) as usize,
                1 => (turn + ctx.below(5) as usize).saturating_sub(2),
                2 => len.saturating_sub(ctx.below(4) as usize),
                _ => *ctx.pick(&[0usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537]),
            }
            .min(len);
            let e = match *ctx.pick(&kinds) {
                0 => Extra::Reject(ctx.below(3) as usize),
                1 => Extra::Mixed(ctx.below(3) as usize),
                2 => Extra::Query(1 + ctx.below(31)),
                _ => Extra::Hint,
            };
            extra.entry(at).or_default().push(e);
            ctx.span_end(s);
        }
    }
    let leave = if last { None } else { Some(if ctx.chance(1, 2) { len } else { ctx.below(len as u32 + 1) as usize }) };
    let fuse = if o.fuses && !last {
        let far = if ctx.chance(1, 2) { 4 } else { 2 * len as u32 };
        Some((1 + ctx.below(far) as i64, ctx.chance(1, 2)))
    } else {
        None
    };
    Round { toks, extra, leave, fuse, manual: ctx.below(3) }
}

pub fn tower(ctx: &mut Ctx, o: TOpts) -> R {
    let shape = if o.eval.is_empty() { *ctx.pick(&[Nest, Right, Dangle, Empty, List]) } else { *ctx.pick(&[Nest, Right, Dangle, Empty, List]) };
    let g = TestGrammar::prepare(shape.orig(), ctx);
    let rounds = if o.resets || o.fuses { 2 + ctx.below(2) as usize } else { 1 };
    let rs: Vec<Round> = (0..rounds).map(|i| draw_round(ctx, shape, &o, i + 1 == rounds)).collect();
    let limit = super::ops::draw_limit(ctx);
    let kinds: Vec<FKind> = if o.trees {
        vec![FKind::Rec]
    } else if o.eval.is_empty() { vec![*ctx.pick(&[FKind::Null, FKind::Simple, FKind::Compact])] } else { o.eval.to_vec() };
    let stop = ctx.below(1 << 20) as u64;
    ev!(ctx, "tower {shape:?} {} limit {limit} forests {kinds:?}", g.describe());
    for r in &rs {
        ev!(ctx, "{} tokens, left after {:?}, fuse {:?}, extra {:?}", r.toks.len(), r.leave, r.fuse, r.extra);
    }
    ctx.probe("tower");
    if rs.iter().any(|r| r.toks.len() > 65_536) {
        ctx.probe("tower-past-2^16");
    }
    for kind in kinds {
        if o.relative && run(ctx, shape, &g, kind, &rs[rounds - 1..], limit, stop, o, false).is_err() {
            return Ok(());
        }
        run(ctx, shape, &g, kind, &rs, limit, stop, o, true)?;
    }
    ctx.nontrivial = true;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn run(ctx: &mut Ctx, shape: Shape, g: &TestGrammar, kind: FKind, rs: &[Round], limit: usize, stop: u64, o: TOpts, disturbed: bool) -> R {
    let mut s = Sess::with_limit(g, SimForest::new(kind, g, 64, false), limit);
    let nt = g.orig.nt;
    let tok = |t: usize, val: u32| Tok { sym: g.term_of(nt + t), val };
    for (n, r) in rs.iter().enumerate() {
        if n > 0 {
            s.reset();
            ctx.fired("reset");
        }
        let judged = r.leave.is_none();
        let mut st = Stack::new(shape);
        let fin = no_panic("is_finished", || s.rec.is_finished())?;
        ensure!(fin == g.start_nullable, "tower-finished", "before the first position: finished {fin}, expected {}", g.start_nullable);
        if let (Some((n, after)), true) = (r.fuse, disturbed) {
            s.forest.fuse.arm(n, after);
        }
        let sof = Tok { sym: g.sof_num(), val: 0 };
        let start = guard(|| {
            s.begin();
            s.scan(&sof);
            s.end(How::Auto)
        });
        match start {
            Outcome::Done(true) => {}
            Outcome::Done(false) => fail!("tower-verdict", "start of input rejected"),
            Outcome::Injected(_) => {
                ctx.fired("forest-callback-panic");
                continue;
            }
            Outcome::Panicked(p) => fail!("panic in tower", "at the start: {p}"),
        }
        let none = vec![];
        let mut failed = false;
        let mut node = None;
        for i in 0..=r.toks.len() {
            if r.leave.map_or(false, |l| i > l) {
                break;
            }
            let extra = if disturbed { r.extra.get(&i).unwrap_or(&none) } else { &none };
            let next = st.next();
            let bad: Vec<usize> = (0..g.orig.tt).filter(|t| !next.contains(t)).collect();
            let mut mixed = vec![];
            let mut hint = None;
            for e in extra {
                match e {
                    Extra::Reject(k) if !bad.is_empty() => {
                        ctx.fired("rejected-offer");
                        let t = tok(bad[k % bad.len()], 5);
                        let offered = guard(|| {
                            s.begin();
                            s.scan(&t);
                            s.end(How::Auto)
                        });
                        match offered {
                            Outcome::Done(ok) => {
                                ensure!(!ok, "tower-verdict", "{shape:?} after {i} tokens: a token accepted that cannot follow")
                            }
                            Outcome::Injected(_) => {
                                ctx.fired("forest-callback-panic");
                                failed = true;
                            }
                            Outcome::Panicked(p) => fail!("panic in tower", "rejected offer: {p}"),
                        }
                    }
                    Extra::Mixed(k) if !bad.is_empty() && i < r.toks.len() => {
                        ctx.fired("unacceptable-token-mixed-in");
                        mixed.push(tok(bad[k % bad.len()], 6));
                    }
                    Extra::Query(w) => {
                        ctx.fired("query");
                        no_panic("query", || s.query(*w))?;
                        if o.reports {
                            let (pred, exp) = no_panic("report", || {
                                s.begin();
                                let p: Vec<usize> = s.rec.predicted_symbols().map(|s| s.usize()).collect();
                                let e: Vec<usize> = s.rec.expected_terminals().map(|s| s.usize()).collect();
                                (p, e)
                            })?;
                            let mut all: Vec<usize> =
                                pred.into_iter().chain(exp).filter(|&s| matches!(g.kinds[s], Kind::Term(_) | Kind::Eof)).collect();
                            all.sort();
                            all.dedup();
                            let mut want: Vec<usize> = next.iter().map(|t| g.term_of(nt + t)).collect();
                            if st.finished() {
                                want.push(g.eof_num());
                            }
                            want.sort();
                            ensure!(all == want, "tower-report", "{shape:?} after {i} tokens: predicted or expected terminals {all:?}, expected {want:?}");
                        }
                    }
                    Extra::Hint if i + 1 < r.toks.len() => {
                        ctx.fired("hint");
                        hint = Some(g.term_of(nt + r.toks[i + 1].0));
                    }
                    _ => {}
                }
            }
            if failed {
                break;
            }
            let Some(&(t, val)) = r.toks.get(i) else { break };
            let at_end = i + 1 == r.toks.len();
            let by_hand = match r.manual {
                0 => false,
                1 => true,
                _ => i % 3 == 0,
            };
            let how = if by_hand { How::Manual(0) } else { How::Auto };
            let t1 = tok(t, val);
            let closed = guard(|| {
                s.begin();
                if let Some(h) = hint {
                    s.rec.lookahead().set_hint(sym(h));
                }
                for m in &mixed {
                    s.scan(m);
                }
                s.scan(&t1);
                s.end(how)
            });
            let ok = match closed {
                Outcome::Done(ok) => ok,
                Outcome::Injected(_) => {
                    ctx.fired("forest-callback-panic");
                    failed = true;
                    break;
                }
                Outcome::Panicked(p) => fail!("panic in tower", "{shape:?} after {i} tokens: {p}"),
            };
            ensure!(ok, "tower-verdict", "{shape:?} after {i} of {} tokens: rejected", r.toks.len());
            let parts = st.step(t, i + 1, by_hand && o.fragments);
            // A hint may leave out what the hinted token makes useless.
            if by_hand && o.fragments && hint.is_none() {
                check_parts(g, &s, &parts, i)?;
            }
            if at_end && st.finished() && !o.eval.is_empty() {
                node = no_panic("finished_node", || s.rec.finished_node())?;
                ensure!(node.is_some(), "tower-finished", "{shape:?}: no finished node after {} tokens", i + 1);
            }
            if let (true, Some(e)) = (o.trees, s.forest.error()) {
                fail!("forest-protocol", "{shape:?} after {} tokens: {e}", i + 1);
            }
            if o.trees && at_end && st.finished() {
                let node = no_panic("finished_node", || s.rec.finished_node())?;
                let want = trees(shape, g, &r.toks[..=i]);
                let got = node.and_then(|n| s.forest.rec().and_then(|r| r.nodes.get(n.0 as usize).map(|n| n.p.clone())));
                ensure!(
                    got.as_ref() == Some(&want),
                    "trees",
                    "{shape:?} after {} tokens: the finished node stands for {}, the input has {} (hash/number of trees)",
                    i + 1,
                    got.as_ref().map_or("nothing".to_string(), |p| p.show()),
                    want.show()
                );
                ctx.probe("tower-trees");
            }
            // Asking makes sense at any time, but not at each of a hundred thousand positions.
            if i < 300 || i % 251 == 0 || i + 300 > r.toks.len() || st.finished() {
                let fin = no_panic("is_finished", || s.rec.is_finished())?;
                if hint.is_none() {
                    ensure!(fin == st.finished(), "tower-finished", "{shape:?} after {} tokens: finished {fin}, expected {}", i + 1, st.finished());
                }
            }
        }
        ctx.steps += r.toks.len() as u64;
        s.forest.fuse.disarm();
        if !judged || failed {
            continue;
        }
        let Some(node) = node else { continue };
        if shape == Dangle && st.cs > 0 || shape == Empty && r.toks.len() % 2 == 1 {
            continue;
        }
        let (want, actions) = tree(shape, g, &r.toks);
        for turn in 0..if o.interrupted { 4 } else { 1 } {
            if o.interrupted && turn % 2 == 0 {
                let at = stop.wrapping_mul(turn + 1) % actions;
                match guard(|| evaluate(&s.forest, node.0, at)) {
                    Outcome::Injected(_) => ctx.fired("action-panic"),
                    Outcome::Done(_) => fail!("tower-evaluation", "{kind:?} {shape:?}: fewer than {at} actions, expected {actions}"),
                    Outcome::Panicked(p) => fail!("panic in tower evaluation", "{kind:?} {shape:?}: {p}"),
                }
                continue;
            }
            let (got, calls) = no_panic("evaluation of a tower", || evaluate(&s.forest, node.0, u64::MAX))?;
            ensure!(got == [want], "tower-evaluation", "{kind:?} {shape:?} of {} tokens: {} values, not the one of the tree", r.toks.len(), got.len());
            ensure!(calls == actions, "tower-evaluation", "{kind:?} {shape:?}: {calls} actions, expected {actions}");
            ctx.probe("tower-evaluated");
        }
    }
    Ok(())
}

fn check_parts(g: &TestGrammar, s: &Sess, parts: &[Part], i: usize) -> R {
    let mut got: Vec<Part> = vec![];
    let mut last = usize::MAX;
    for f in &s.offered {
        ensure!(f.origin <= last, "tower-order", "after {} tokens: a fragment from {} offered after one from {last}", i + 1, f.origin);
        last = f.origin;
        if let Kind::Nt(n) = g.kinds[f.sym] {
            let mut rules: Vec<usize> = f.alts.iter().filter_map(|a| g.rules[a.0 as usize].origin).collect();
            rules.sort();
            got.push((n, f.origin, rules));
        }
    }
    // Equal origins come in any order.
    let key = |p: &Part| (std::cmp::Reverse(p.1), p.0);
    got.sort_by_key(key);
    let mut want = parts.to_vec();
    want.sort_by_key(key);
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail!("tower-fragments", "after {} tokens: {} fragments, expected {}; number {k} is {:?}, expected {:?}", i + 1, got.len(), want.len(), got.get(k), want.get(k));
    }
    Ok(())
}

// -------------------------------------------------------------------------------------------------------- refusals

/// What is refused: in the closing number k, of the fragment of S (or of the inner part of a S c) that starts there,
/// everything or the alternative of one rule.
#[derive(Clone, Copy, Debug)]
struct Refusal {
    k: usize,
    inner: bool,
    start: usize,
    rule: Option<usize>,
}

/// a^n b c^k by S = a S | a S c | b, of any size, with some derivations refused.
pub fn veto_tower(ctx: &mut Ctx) -> R {
    let g = TestGrammar::prepare(Dangle.orig(), ctx);
    let n = draw_size(ctx, usize::MAX);
    let most = if n <= 300 { 12 } else { 3 };
    let cs = 1 + ctx.below(most) as usize;
    let kind = *ctx.pick(&[FKind::Rec, FKind::Rec, FKind::Null, FKind::Simple, FKind::Compact]);
    let limit = super::ops::draw_limit(ctx);
    let mut refusals = vec![];
    for _ in 0..1 + ctx.below(6) {
        let start = match ctx.below(5) {
            0 => ctx.below(n as u32 + 1) as usize,
            1 => ctx.below(4) as usize,
            2 => n - (ctx.below(6) as usize).min(n),
            3 => n - cs.min(n) + ctx.below(3) as usize,
            _ => *ctx.pick(&[254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537]),
        }
        .min(n);
        let rule = *ctx.pick(&[None, Some(0), Some(1)]);
        refusals.push(Refusal { k: ctx.below(cs as u32 + 1) as usize, inner: ctx.chance(1, 4), start, rule });
    }
    let mut style = ctx.below(1 << 16) as u64;
    let warm = ctx.chance(1, 4);
    ev!(ctx, "tower of refusals {} n {n} cs {cs} limit {limit} forest {kind:?} {refusals:?} style {style} warm {warm}", g.describe());
    ctx.probe("tower");
    if n + 1 + cs > 65_536 {
        ctx.probe("tower-past-2^16");
    }
    let whole = |k: usize, inner: bool, start: usize| {
        refusals.iter().any(|r| r.k == k && r.inner == inner && r.start == start && (inner || r.rule.is_none()))
    };
    let one = |k: usize, start: usize, rule: usize| {
        whole(k, false, start) || refusals.iter().any(|r| r.k == k && !r.inner && r.start == start && r.rule == Some(rule))
    };
    let forest = SimForest::new(kind, &g, 64, false);
    if let Some(mut r) = forest.rec() {
        r.abandon_ok = true;
    }
    let mut s = Sess::with_limit(&g, forest, limit);
    let nt = g.orig.nt;
    let tok = |t: usize, i: usize| Tok { sym: g.term_of(nt + t), val: i as u32 };
    let sof = Tok { sym: g.sof_num(), val: 0 };
    // The inner symbol stands for a S or for S c.
    let front = g.kinds.iter().any(|k| matches!(k, Kind::Inter(1, 0, 2)));
    if warm {
        no_panic("an earlier session", || {
            for t in [sof.clone(), tok(A, 0), tok(A, 1), tok(B, 2)] {
                s.begin();
                s.scan(&t);
                s.end(How::Auto);
            }
            s.reset();
        })?;
        ctx.fired("reset");
    }
    for (i, t) in [sof].into_iter().chain((0..n).map(|i| tok(A, i))).enumerate() {
        let ok = no_panic("closing", || {
            s.begin();
            s.scan(&t);
            s.end(How::Auto)
        })?;
        ensure!(ok, "veto-verdict", "position {i}: rejected");
    }
    ctx.steps += n as u64;
    let prod = |r: usize, args: &[&P]| {
        let none = P { t: None, ..P::one() };
        args.iter().enumerate().fold(none, |p, (i, a)| p.times(&a.factor(Some((r, i))))).wrap(r)
    };
    let lf = |t: &Tok| p_leaf(t, false);
    // What the fragments of S that end here stand for, by their start; and the inner parts that are there.
    let mut before: Vec<P> = vec![];
    let mut inner_before: Vec<bool> = vec![];
    for k in 0..=cs {
        let t = if k == 0 { tok(B, n) } else { tok(C, n + k) };
        let possible = k == 0 || if front { inner_before.iter().any(|&x| x) } else { before[1..].iter().any(|p| p.c > 0) };
        let ok = no_panic("opening", || {
            s.begin();
            s.scan(&t);
            !s.rec.is_exhausted()
        })?;
        ensure!(ok == possible, "veto-verdict", "n {n}, c number {k}: verdict {ok}, expected {possible}");
        if !ok {
            ctx.probe("dead-end");
            return Ok(());
        }
        // The reference.
        let mut now = vec![P::default(); n + 1];
        let mut inner = vec![false; n + 1];
        let mut want: Vec<(usize, bool, Vec<usize>)> = vec![];
        for p in (0..=n).rev() {
            if !front && k > 0 && p > 0 && before[p].c > 0 {
                want.push((p, true, vec![]));
                inner[p] = !whole(k, true, p);
            }
            let mut alts = vec![];
            let mut v = P::default();
            if p == n && k == 0 {
                alts.push(2);
                if !one(k, p, 2) {
                    v = v.plus(&prod(2, &[&lf(&t)]));
                }
            }
            if p < n {
                let a = lf(&tok(A, p));
                if now[p + 1].c > 0 {
                    alts.push(0);
                    if !one(k, p, 0) {
                        v = v.plus(&prod(0, &[&a, &now[p + 1]]));
                    }
                    if front {
                        want.push((p, true, vec![]));
                        inner[p] = !whole(k, true, p);
                    }
                }
                if k > 0 && if front { inner_before[p] } else { inner[p + 1] } {
                    alts.push(1);
                    if !one(k, p, 1) {
                        v = v.plus(&prod(1, &[&a, &before[p + 1], &lf(&t)]));
                    }
                }
            }
            if !alts.is_empty() {
                alts.sort();
                want.push((p, false, alts));
            }
            now[p] = v;
        }
        // The code.
        let mut got: Vec<(usize, bool, Option<Vec<usize>>)> = vec![];
        let n_refused = no_panic("closing by hand", || {
            let mut refused = [0u64; 2];
            while let Some(mut group) = s.rec.next_sum() {
                // Positions count from the start of input.
                let at = s.map.get(group.origin() as usize).copied().unwrap_or(usize::MAX).wrapping_sub(1);
                let is_inner = match g.kinds[group.symbol().usize()] {
                    Kind::Inter(..) => true,
                    Kind::Nt(_) => false,
                    // The wrapping of the whole input.
                    _ => {
                        group.complete_entire_sum();
                        continue;
                    }
                };
                let all = whole(k, is_inner, at);
                if all && splitmix(&mut style) % 2 == 0 {
                    group.skip_entire_sum();
                    refused[0] += 1;
                    got.push((at, is_inner, None));
                    continue;
                }
                let mut rules = vec![];
                let mut pushed = 0;
                while let Some(item) = group.next_summand() {
                    let rule = g.rules[item.dot as usize].origin;
                    rules.extend(rule);
                    if all || rule.map_or(false, |r| one(k, at, r)) {
                        refused[1] += 1;
                    } else {
                        group.push_summand(item);
                        pushed += 1;
                    }
                }
                if pushed > 0 {
                    group.complete_sum();
                }
                rules.sort();
                got.push((at, is_inner, Some(rules)));
            }
            s.rec.advance_after_completion();
            s.closed();
            refused
        })?;
        ctx.steps += 1;
        for (x, name) in n_refused.into_iter().zip(["fragment-refused", "alternative-refused"]) {
            for _ in 0..x {
                ctx.fired(name);
            }
        }
        if let Some(e) = s.forest.error() {
            fail!("forest-protocol", "{e}");
        }
        got.sort_by_key(|x| (std::cmp::Reverse(x.0), x.1));
        want.sort_by_key(|x| (std::cmp::Reverse(x.0), x.1));
        let same = |g: &(usize, bool, Option<Vec<usize>>), w: &(usize, bool, Vec<usize>)| {
            g.0 == w.0 && g.1 == w.1 && g.2.as_ref().map_or(true, |a| *a == w.2)
        };
        let diff = (0..got.len().max(want.len())).find(|&i| !matches!((got.get(i), want.get(i)), (Some(g), Some(w)) if same(g, w)));
        if let Some(i) = diff {
            fail!("veto-fragments", "n {n}, c number {k}: {} fragments, expected {}; number {i} is {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i));
        }
        let node = no_panic("finished_node", || s.rec.finished_node())?;
        let fin = no_panic("is_finished", || s.rec.is_finished())?;
        let want_fin = now[0].c > 0;
        ensure!(fin == want_fin && node.is_some() == want_fin, "veto-parse", "n {n}, c number {k}: finished {fin}, expected {want_fin}");
        if kind == FKind::Rec {
            if let Some(n) = node {
                let p = s.forest.rec().and_then(|r| r.nodes.get(n.0 as usize).map(|n| n.p.clone()));
                ensure!(
                    p.as_ref() == Some(&now[0]),
                    "veto-parse",
                    "c number {k}: the finished node stands for {}, expected {}",
                    p.map_or("nothing".to_string(), |p| p.show()),
                    now[0].show()
                );
                ctx.probe("tower-finished-after-refusal");
            }
        }
        ev!(ctx, "c number {k}: {} fragments, refused {n_refused:?}, finished {fin}", got.len());
        before = now;
        inner_before = inner;
    }
    ctx.nontrivial = true;
    Ok(())
}

// -------------------------------------------------------------------------------------------------------- isolation

struct Side {
    kind: FKind,
    limit: usize,
    toks: Vec<(usize, u32)>,
    manual: u32,
    /// Abandoned there and begun again.
    again: Option<usize>,
}

/// One step of a session: the token number i is read, or everything begins again.
fn side_step(s: &mut Sess, g: &TestGrammar, x: &Side, i: usize) -> u64 {
    if x.again == Some(i) {
        s.reset();
        return 1;
    }
    let i = match x.again {
        Some(a) if i > a => i - a - 1,
        _ => i,
    };
    let t = match i {
        0 => Tok { sym: g.sof_num(), val: 0 },
        _ => Tok { sym: g.term_of(g.orig.nt + x.toks[i - 1].0), val: x.toks[i - 1].1 },
    };
    let by_hand = x.manual == 1 || x.manual == 2 && i % 3 == 0;
    s.begin();
    s.scan(&t);
    let ok = s.end(if by_hand { How::Manual(i as u64 * 77) } else { How::Auto });
    let mut h = mix(ok as u64, s.rec.is_finished() as u64);
    for f in &mut s.offered {
        f.alts.sort();
    }
    s.offered.sort();
    for f in &s.offered {
        h = mix(mix(h, f.sym as u64), f.origin as u64);
        for a in &f.alts {
            h = mix(h, a.0 as u64);
        }
    }
    if i < 300 || i % 251 == 0 || i + 10 > x.toks.len() {
        s.begin();
        h = s.rec.predicted_symbols().fold(h, |h, s| mix(h, s.usize() as u64));
        h = mix(h, s.rec.earleme() as u64);
    }
    h
}

fn side_end(s: &Sess, x: &Side) -> u64 {
    match s.rec.finished_node() {
        None => 0,
        // Trees beyond counting.
        Some(_) if x.toks.iter().any(|t| t.0 == C) && x.toks[0].0 == A && s.g.orig.rules.len() == 3 => 1,
        Some(n) => evaluate(&s.forest, n.0, u64::MAX).0.iter().fold(2, |h, v| mix(h, v.0)),
    }
}

/// Sessions of any size on one grammar, in turns.
pub fn sides(ctx: &mut Ctx) -> R {
    let shape = *ctx.pick(&[Nest, Right, Dangle, Empty, List]);
    let g = TestGrammar::prepare(shape.orig(), ctx);
    let n = 2 + ctx.below(2) as usize;
    let mut xs = vec![];
    for _ in 0..n {
        let toks: Vec<(usize, u32)> = draw_tokens(ctx, shape, true).into_iter().enumerate().map(|(i, t)| (t, i as u32)).collect();
        let again = if ctx.chance(1, 3) { Some(ctx.below(toks.len() as u32 + 2) as usize) } else { None };
        let x = Side { kind: *ctx.pick(&[FKind::Null, FKind::Simple, FKind::Compact]), limit: super::ops::draw_limit(ctx), toks, manual: ctx.below(3), again };
        ev!(ctx, "session on {shape:?}: {} tokens, forest {:?}, limit {}, again after {:?}", x.toks.len(), x.kind, x.limit, x.again);
        xs.push(x);
    }
    let burst = *ctx.pick(&[1u32, 3, 40, 5000]);
    let seed = ctx.below(1 << 16) as u64;
    ev!(ctx, "{} in turns of up to {burst}, seed {seed}", g.describe());
    ctx.probe("tower");
    if xs.iter().any(|x| x.toks.len() > 65_536) {
        ctx.probe("tower-past-2^16");
    }
    let make = |x: &Side| Sess::with_limit(&g, SimForest::new(x.kind, &g, 64, false), x.limit);
    let count = |x: &Side| {
        // An abandoned session ends with its input at the latest.
        x.toks.len() + 1 + x.again.map_or(0, |a| a + 1)
    };
    let mut ss: Vec<Sess> = xs.iter().map(make).collect();
    let mut at = vec![0; n];
    let mut got: Vec<Vec<u64>> = vec![vec![]; n];
    let mut rng = seed;
    loop {
        let left: Vec<usize> = (0..n).filter(|&i| at[i] < count(&xs[i])).collect();
        if left.is_empty() {
            break;
        }
        let i = left[splitmix(&mut rng) as usize % left.len()];
        let k = 1 + splitmix(&mut rng) as usize % burst as usize;
        for _ in 0..k.min(count(&xs[i]) - at[i]) {
            let h = no_panic("a step among other sessions", || side_step(&mut ss[i], &g, &xs[i], at[i]))?;
            got[i].push(h);
            at[i] += 1;
        }
    }
    let ends: Vec<u64> = (0..n).map(|i| no_panic("evaluation", || side_end(&ss[i], &xs[i]))).collect::<Result<_, _>>()?;
    for (i, x) in xs.iter().enumerate() {
        let mut s = make(x);
        for k in 0..count(x) {
            let want = no_panic("a step alone", || side_step(&mut s, &g, x, k))?;
            ensure!(got[i][k] == want, "isolation", "session {i} step {k} of {}: among others something else than alone", count(x));
        }
        ctx.steps += 2 * count(x) as u64;
        let want = no_panic("evaluation", || side_end(&s, x))?;
        ensure!(ends[i] == want, "isolation", "session {i}: the parse is another one than alone");
    }
    ctx.nontrivial = true;
    Ok(())
}
