//! R13: what reading a deterministic input costs under truthful hints, counted in steps of the code under test.
//!
//! The reference is a shift-reduce parser with one symbol of lookahead, which the harness builds for the drawn grammar
//! itself. Where it has no conflicts, it tells how many reductions each token calls for, and the recognizer's work at
//! that position is held against them.

use super::gram::*;
use super::huge::Shape;
use super::session::sym;
use super::stream;
use bit_matrix::row::BitSlice;
use cfg_history::earley::{EventAndDistance, ExternalDottedRule, ExternalOrigin, NullingEliminated};
use cfg_symbol::Symbol;
use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_grammar::{ForestInfo, Grammar, NullingIntermediateRule, PredictionTransition};
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use simcore::*;
use std::cell::Cell;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------------------ reference

type LrItem = (usize, usize);

/// The automaton of LR(0) items, with reductions resolved by what may follow: only if there are no conflicts.
struct Slr {
    nt: usize,
    /// The last rule reads the start symbol.
    rules: Vec<(usize, Vec<usize>)>,
    kernel: Vec<usize>,
    goto: Vec<Vec<u32>>,
    reduce: Vec<Vec<usize>>,
    /// By nonterminal and terminal (from 0), the end of input last.
    follow: Vec<Vec<bool>>,
    /// For the tables' sizes: by symbol, the rules that start with it once empty symbols are left out.
    starts: Vec<usize>,
}

const NONE: u32 = u32::MAX;

impl Slr {
    fn build(o: &Orig) -> Option<Slr> {
        let (nt, n) = (o.nt, o.syms());
        let tt = o.tt;
        let mut rules = o.rules.clone();
        rules.sort();
        let before = rules.len();
        rules.dedup();
        if rules.len() != before {
            return None;
        }
        rules.push((usize::MAX, vec![0]));
        let goal = rules.len() - 1;
        // FIRST and FOLLOW.
        let mut first = vec![vec![false; tt]; n];
        for t in 0..tt {
            first[nt + t][t] = true;
        }
        loop {
            let mut changed = false;
            for (l, r) in &rules[..goal] {
                for &s in r {
                    for t in 0..tt {
                        if first[s][t] && !first[*l][t] {
                            first[*l][t] = true;
                            changed = true;
                        }
                    }
                    if !o.nullable[s] {
                        break;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut follow = vec![vec![false; tt + 1]; nt];
        follow[0][tt] = true;
        loop {
            let mut changed = false;
            for (l, r) in &rules[..goal] {
                for (i, &s) in r.iter().enumerate() {
                    if s >= nt {
                        continue;
                    }
                    let mut set = vec![false; tt + 1];
                    let mut through = true;
                    for &x in &r[i + 1..] {
                        for t in 0..tt {
                            set[t] |= first[x][t];
                        }
                        if !o.nullable[x] {
                            through = false;
                            break;
                        }
                    }
                    if through {
                        for t in 0..=tt {
                            set[t] |= follow[*l][t];
                        }
                    }
                    for t in 0..=tt {
                        if set[t] && !follow[s][t] {
                            follow[s][t] = true;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // States.
        let mut by_lhs: Vec<Vec<usize>> = vec![vec![]; nt];
        for (i, (l, _)) in rules[..goal].iter().enumerate() {
            by_lhs[*l].push(i);
        }
        let mut number: BTreeMap<Vec<LrItem>, u32> = BTreeMap::new();
        let mut todo: Vec<Vec<LrItem>> = vec![vec![(goal, 0)]];
        number.insert(todo[0].clone(), 0);
        let mut slr = Slr { nt, rules, kernel: vec![], goto: vec![], reduce: vec![], follow, starts: vec![0; n] };
        let mut at = 0;
        while at < todo.len() {
            if at > 500 {
                return None;
            }
            let kernel = todo[at].clone();
            slr.kernel.push(kernel.len());
            let mut items = kernel;
            let mut seen = vec![false; nt];
            let mut i = 0;
            while i < items.len() {
                let (r, d) = items[i];
                i += 1;
                if let Some(&s) = slr.rules[r].1.get(d) {
                    if s < nt && !seen[s] {
                        seen[s] = true;
                        items.extend(by_lhs[s].iter().map(|&q| (q, 0)));
                    }
                }
            }
            let mut next: BTreeMap<usize, Vec<LrItem>> = BTreeMap::new();
            let mut reduce = vec![];
            for &(r, d) in &items {
                match slr.rules[r].1.get(d) {
                    Some(&s) => next.entry(s).or_default().push((r, d + 1)),
                    None => reduce.push(r),
                }
            }
            // Conflicts.
            let mut taken = vec![false; tt + 1];
            for &s in next.keys() {
                if s >= nt {
                    taken[s - nt] = true;
                }
            }
            for &r in &reduce {
                for t in 0..=tt {
                    let on = if r == goal { t == tt } else { slr.follow[slr.rules[r].0][t] };
                    if on {
                        if taken[t] {
                            return None;
                        }
                        taken[t] = true;
                    }
                }
            }
            let mut row = vec![NONE; n];
            for (s, mut k) in next {
                k.sort();
                let id = match number.get(&k) {
                    Some(&id) => id,
                    None => {
                        let id = todo.len() as u32;
                        number.insert(k.clone(), id);
                        todo.push(k);
                        id
                    }
                };
                row[s] = id;
            }
            slr.goto.push(row);
            slr.reduce.push(reduce);
            at += 1;
        }
        for (_, r) in &slr.rules[..goal] {
            for &s in r {
                slr.starts[s] += 1;
            }
        }
        Some(slr)
    }
    fn eof(&self) -> usize {
        self.follow[0].len() - 1 + self.nt
    }
}

/// What one token called for.
#[derive(Clone, Copy, Default, Debug)]
struct Called {
    reductions: u64,
    /// Items in progress that were reached, and one for each reduction.
    items: u64,
    /// Entries of the grammar's tables that speak of the symbols involved.
    entries: u64,
}

struct Lr<'s> {
    s: &'s Slr,
    stack: Vec<u32>,
}

impl<'s> Lr<'s> {
    fn new(s: &'s Slr) -> Self {
        Lr { s, stack: vec![0] }
    }
    /// The reductions before `t`, or nothing if `t` doesn't fit here. Done only if asked for.
    fn reduce(&mut self, t: usize, really: bool) -> Option<Called> {
        let s = self.s;
        let mut base = self.stack.len();
        let mut over: Vec<u32> = vec![];
        let mut c = Called::default();
        loop {
            let top = *over.last().unwrap_or_else(|| &self.stack[base - 1]);
            if t != s.eof() && s.goto[top as usize][t] != NONE {
                break;
            }
            let goal = s.rules.len() - 1;
            let r = *s.reduce[top as usize].iter().find(|&&r| if r == goal { t == s.eof() } else { s.follow[s.rules[r].0][t - s.nt] })?;
            if r == goal {
                break;
            }
            let (lhs, ref rhs) = s.rules[r];
            for _ in 0..rhs.len() {
                if over.pop().is_none() {
                    base -= 1;
                }
            }
            let top = *over.last().unwrap_or_else(|| &self.stack[base - 1]);
            let to = s.goto[top as usize][lhs];
            over.push(to);
            c.reductions += 1;
            c.items += 1 + s.kernel[to as usize] as u64;
            c.entries += 1 + s.starts[lhs] as u64;
        }
        if really {
            self.stack.truncate(base);
            self.stack.extend(over);
        }
        Some(c)
    }
    fn shift(&mut self, t: usize) -> Called {
        let to = self.s.goto[*self.stack.last().unwrap() as usize][t];
        self.stack.push(to);
        Called { reductions: 0, items: 1 + self.s.kernel[to as usize] as u64, entries: 1 + self.s.starts[t] as u64 }
    }
}

// --------------------------------------------------------------------------------------------------------- meters

#[derive(Default)]
struct Meter {
    lookups: Cell<u64>,
    sums: Cell<u64>,
    others: Cell<u64>,
    /// Calls into the forest until one fails; 0: none fails.
    fuse: Cell<u64>,
}

impl Meter {
    fn tick(c: &Cell<u64>) {
        c.set(c.get() + 1);
    }
    fn clear(&self) {
        for c in [&self.lookups, &self.sums, &self.others] {
            c.set(0);
        }
    }
    fn burn(&self) {
        let f = self.fuse.get();
        if f > 0 {
            self.fuse.set(f - 1);
            if f == 1 {
                inject("forest-callback-panic");
            }
        }
    }
}

struct Metered<'a>(&'a TestGrammar, &'a Meter);

macro_rules! metered {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        impl Grammar for Metered<'_> {
            $(fn $f(&self, $($a: $t),*) -> $r {
                Meter::tick(&self.1.lookups);
                self.0.$f($($a),*)
            })*
        }
    };
}

metered! {
    sof() -> Symbol;
    eof() -> Symbol;
    lhs_lr_set(symbol: Symbol) -> &BitSlice;
    lookahead_set(dot: u32) -> &BitSlice;
    rhs1_or_lhs(dot: u32) -> Symbol;
    prediction_row(sym: Symbol) -> &BitSlice;
    num_syms() -> usize;
    num_gensyms() -> usize;
    num_rules() -> usize;
    start_sym() -> Symbol;
    externalized_start_sym() -> Symbol;
    has_trivial_derivation() -> bool;
    nulling(pos: u32) -> NullingEliminated;
    events() -> (&[EventAndDistance], &[EventAndDistance]);
    trace() -> [&[ExternalDottedRule]; 3];
    get_rhs1(dot: u32) -> Option<Symbol>;
    rhs1() -> &[Option<Symbol>];
    get_lhs(dot: u32) -> Symbol;
    external_origin(dot: u32) -> ExternalOrigin;
    eliminated_nulling_intermediate() -> &[NullingIntermediateRule];
    completions(sym: Symbol) -> &[PredictionTransition];
    gen_completion(sym: Symbol) -> [Option<PredictionTransition>; 2];
    to_internal(symbol: Symbol) -> Option<Symbol>;
    to_external(symbol: Symbol) -> Symbol;
    dot_before_eof() -> u32;
    useless_symbol() -> Symbol;
    forest_info() -> ForestInfo;
}

struct Counted<'a>(&'a Meter);

impl Counted<'_> {
    fn other(&self) {
        Meter::tick(&self.0.others);
        self.0.burn();
    }
}

impl Forest<Symbol> for Counted<'_> {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.other();
    }
    fn push_summand(&mut self, _: Item<u32>) {
        self.other();
    }
    fn sum(&mut self, _: Symbol, _: u32) -> u32 {
        Meter::tick(&self.0.sums);
        self.0.burn();
        0
    }
    fn product(&mut self, _: u32, _: u32) -> u32 {
        self.other();
        0
    }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> u32 {
        self.other();
        0
    }
    fn nulling(&self, _: Symbol) -> u32 {
        0
    }
}

// ---------------------------------------------------------------------------------------------------------- inputs

/// Nonterminals whose alternatives start with distinct terminals.
fn distinct(ctx: &mut Ctx) -> Orig {
    let s = ctx.span_start();
    let nt = 1 + ctx.below(5) as usize;
    let tt = 2 + ctx.below(5) as usize;
    let mut rules = vec![];
    for a in 0..nt {
        // Some stand for nothing at all.
        if a > 0 && ctx.chance(1, 6) {
            rules.push((a, vec![]));
            continue;
        }
        let alts = 1 + ctx.below(tt as u32) as usize;
        let from = ctx.below(tt as u32) as usize;
        for i in 0..alts {
            let mut rhs = vec![nt + (from + i) % tt];
            for _ in 0..ctx.below(4) {
                rhs.push(if ctx.chance(3, 5) { ctx.below(nt as u32) as usize } else { nt + ctx.below(tt as u32) as usize });
            }
            rules.push((a, rhs));
        }
        if ctx.chance(1, 3) {
            rules.push((a, vec![]));
        }
    }
    ctx.span_end(s);
    Orig::from_proposals(nt, tt, rules)
}

/// Layers of operators, each binding to the left or to the right, around parenthesised or prefixed operands.
fn layers(ctx: &mut Ctx) -> Orig {
    let s = ctx.span_start();
    let k = 1 + ctx.below(5) as usize;
    let (lp, rp, atom, minus) = (k, k + 1, k + 2, k + 3);
    let nt = k + 1;
    let t = |i: usize| nt + i;
    let mut rules = vec![];
    for a in 0..k {
        rules.push((a, vec![a + 1]));
        rules.push((a, if ctx.chance(2, 3) { vec![a + 1, t(a), a] } else { vec![a, t(a), a + 1] }));
    }
    rules.push((k, vec![t(lp), 0, t(rp)]));
    rules.push((k, vec![t(atom)]));
    if ctx.chance(1, 2) {
        rules.push((k, vec![t(minus), k]));
    }
    ctx.span_end(s);
    Orig::from_proposals(nt, k + 4, rules)
}

/// Rules that recur at their right end, or just before symbols that stand for nothing, around a list.
fn tails(ctx: &mut Ctx) -> Orig {
    let s = ctx.span_start();
    // X, Z, and Y, which is empty.
    let (x, z, y) = (0, 1, 2);
    let t = |i: usize| 3 + i;
    let end = |ctx: &mut Ctx, mut v: Vec<usize>| {
        for _ in 0..ctx.below(3) {
            v.push(y);
        }
        v
    };
    let mut rules = vec![(y, vec![])];
    let a = if ctx.chance(1, 2) { vec![t(0), x] } else { vec![t(0), t(1), x] };
    rules.push((x, end(ctx, a)));
    let b = match ctx.below(3) {
        0 => vec![t(2), z],
        1 => vec![z],
        _ => vec![t(2), t(2), z],
    };
    rules.push((x, end(ctx, b)));
    let c = match ctx.below(4) {
        0 => vec![z, t(3)],
        1 => vec![z, t(3), t(4)],
        2 => vec![t(3), z],
        _ => vec![z, y, t(3)],
    };
    rules.push((z, end(ctx, c)));
    let d = if ctx.chance(1, 2) { vec![] } else { vec![t(3)] };
    rules.push((z, end(ctx, d)));
    ctx.span_end(s);
    Orig::from_proposals(3, 5, rules)
}

fn draw(ctx: &mut Ctx) -> (Orig, Slr) {
    for _ in 0..12 {
        let o = match ctx.weighted(&[3, 4, 3, 4, 2]) {
            0 => [Shape::Right, Shape::Nest, Shape::Empty, Shape::List][ctx.below(4) as usize].orig(),
            1 => gen_orig(ctx, &GenOpts { unambiguous: true, ..Default::default() }),
            2 => layers(ctx),
            3 => distinct(ctx),
            _ => tails(ctx),
        };
        if let Some(slr) = Slr::build(&o) {
            if o.tt <= 400 {
                return (o, slr);
            }
        }
    }
    let o = Shape::Right.orig();
    let slr = Slr::build(&o).unwrap();
    (o, slr)
}

/// A sentence, or the start of one, with some length: original symbols. True if it is a whole sentence.
fn input(ctx: &mut Ctx, o: &Orig, slr: &Slr, most: usize) -> (Vec<usize>, bool) {
    let s = ctx.span_start();
    let mut toks = vec![];
    let mut whole = false;
    if ctx.chance(1, 3) {
        let budget = 1 + ctx.below(most as u32) as usize;
        toks = o.sentence_of(ctx, budget, true);
        whole = true;
    } else {
        // Drawn choices among the tokens that fit, repeated.
        let mut lr = Lr::new(slr);
        let total = 1 + ctx.below(most as u32) as usize;
        'all: while toks.len() < total {
            let b = ctx.span_start();
            let choices: Vec<u32> = (0..1 + ctx.below(6)).map(|_| ctx.below(12)).collect();
            let reps = if ctx.chance(1, 2) { 1 + ctx.below(4) } else { 10 + ctx.below(400) };
            ctx.span_end(b);
            for _ in 0..reps {
                for c in &choices {
                    let fit: Vec<usize> = (o.nt..o.syms()).filter(|&t| lr.reduce(t, false).is_some()).collect();
                    if fit.is_empty() {
                        whole = true;
                        break 'all;
                    }
                    let t = fit[*c as usize % fit.len()];
                    lr.reduce(t, true);
                    lr.shift(t);
                    toks.push(t);
                    if toks.len() >= total {
                        break 'all;
                    }
                }
            }
        }
        if !whole {
            whole = lr.reduce(slr.eof(), false).is_some();
        }
    }
    if toks.len() > 4000 {
        toks.truncate(4000);
        whole = false;
    }
    ctx.span_end(s);
    (toks, whole)
}

// -------------------------------------------------------------------------------------------------------- scenario

type Rec<'a> = Recognizer<Metered<'a>, Counted<'a>>;

fn close(rec: &mut Rec, how: u32) -> bool {
    match how {
        0 => rec.end_earleme(),
        _ if rec.is_exhausted() => false,
        1 => {
            rec.complete_all_sums_entirely();
            rec.advance_after_completion();
            true
        }
        _ => {
            while let Some(mut gr) = rec.next_sum() {
                if how == 2 {
                    gr.complete_entire_sum();
                } else {
                    while let Some(it) = gr.next_summand() {
                        gr.push_summand(it);
                    }
                    gr.complete_sum();
                }
            }
            rec.advance_after_completion();
            true
        }
    }
}

pub fn r13(ctx: &mut Ctx) -> R {
    let (orig, slr) = draw(ctx);
    let g = TestGrammar::prepare(orig.clone(), ctx);
    if ctx.tracing() {
        let d = g.describe();
        ctx.note(format_args!("grammar {d}"));
    }
    let meter = Meter::default();
    let limit = *ctx.pick(&[8192usize, 0, 20_000]);
    let size = g.rules.len() as u64;
    ev!(ctx, "{} rules, {} states, limit {limit}", g.rules.len(), slr.kernel.len());
    stream::clear();
    let mut rec: Rec = no_panic("creation", || {
        stream::counted(|| Recognizer::with_forest_and_policy(Metered(&g, &meter), Counted(&meter), DefaultPerfHint::new(limit)))
    })?;
    let live0 = stream::live();
    // Over all sessions: what was called for, and what a position takes besides.
    let mut total = 0u64;
    let mut positions = 0u64;
    let row = (g.syms as u64).div_ceil(32) * 4 + 16;
    let sessions = 1 + ctx.below(3);
    for k in 0..sessions {
        let s0 = ctx.span_start();
        let last = k + 1 == sessions;
        let most = if ctx.chance(1, 3) { 1500 } else { 200 };
        let (toks, whole) = input(ctx, &orig, &slr, most);
        let style = ctx.below(5);
        // How the session is disturbed.
        let refuse = ctx.chance(1, 3);
        let stop = if last { usize::MAX } else { ctx.below(toks.len() as u32 + 2) as usize };
        let fail_within = *ctx.pick(&[20u32, 600]);
        let fail = if !last && ctx.chance(1, 2) { 1 + ctx.below(fail_within) as u64 } else { 0 };
        ev!(ctx, "session {k}: {} tokens, whole {whole}, style {style}, refuse {refuse}, stop {stop}, fail {fail}", toks.len());
        let mut lr = Lr::new(&slr);
        meter.fuse.set(fail);
        let mut failed = false;
        let mut deepest = 0;
        // Position 0 reads the start of input.
        for p in 0..=toks.len() {
            let hint = match toks.get(p) {
                Some(&t) => Some(t),
                None if whole => Some(slr.eof()),
                None => None,
            };
            let num = if p == 0 { g.sof_num() } else { g.term_of(toks[p - 1]) };
            let how = if style == 4 { ctx.below(4) } else { style };
            let dist = if refuse { ctx.below(6) } else { 0 };
            let mut allowed = if p == 0 { Called { reductions: 0, items: 1, entries: 1 } } else { lr.shift(toks[p - 1]) };
            let c = match hint {
                Some(h) => match lr.reduce(h, true) {
                    Some(c) => c,
                    None => return violation("harness", format!("token {p} doesn't fit the reference")),
                },
                None => Called::default(),
            };
            allowed.reductions += c.reductions;
            allowed.items += c.items;
            allowed.entries += c.entries;
            deepest = deepest.max(c.reductions);
            meter.clear();
            let r = guard(|| {
                stream::counted(|| {
                    rec.begin_earleme();
                    if dist == 1 {
                        rec.scan(sym(if p == 0 { g.eof_num() } else { g.sof_num() }), 3);
                        if rec.end_earleme() {
                            return Err("a token that doesn't fit was accepted");
                        }
                    }
                    if dist == 2 {
                        rec.lookahead().set_hint(sym(g.sof_num()));
                    }
                    if let Some(h) = hint {
                        rec.lookahead().set_hint(sym(if h == slr.eof() { g.eof_num() } else { g.term_of(h) }));
                    } else {
                        rec.lookahead().clear_hint();
                    }
                    if dist == 3 {
                        rec.scan(sym(if p == 0 { g.eof_num() } else { g.sof_num() }), 3);
                        if rec.end_earleme() {
                            return Err("a token that doesn't fit was accepted");
                        }
                    }
                    rec.scan(sym(num), p as u32);
                    if p == stop {
                        return Ok(false);
                    }
                    if close(&mut rec, how) {
                        Ok(true)
                    } else {
                        Err("a token that fits was refused")
                    }
                })
            });
            match dist {
                1 | 3 => ctx.fired("rejected-offer"),
                2 => ctx.fired("hint-overwritten"),
                _ => {}
            }
            match r {
                Outcome::Injected(kind) => {
                    ctx.fired(kind);
                    failed = true;
                    break;
                }
                Outcome::Panicked(m) => return violation("panic in reading", m),
                Outcome::Done(Err(m)) => return violation("verdict", format!("position {p}: {m}")),
                Outcome::Done(Ok(false)) => {
                    failed = true;
                    ctx.fired("abandoned-with-hint-pending");
                    break;
                }
                Outcome::Done(Ok(true)) => {}
            }
            ctx.steps += 1;
            let (lookups, sums, others) = (meter.lookups.get(), meter.sums.get(), meter.others.get());
            let live = stream::live();
            if hint.is_none() {
                // Little is promised of a position without a hint; it is the last.
                total += size * (p as u64 + 1);
                continue;
            }
            total += allowed.items;
            positions += 1;
            if ctx.tracing() {
                ctx.note(format_args!(
                    "position {p}: token {num}, {allowed:?}: {lookups} lookups, {sums} sums, {others} others, {} items, {} bytes, {} positions",
                    rec.medial_items().count(), live - live0, rec.earleme()
                ));
            }
            let Called { items, entries, .. } = allowed;
            ensure!(sums <= 3 * items, "cost-sums", "position {p}, {allowed:?}: {sums} sums made");
            ensure!(others <= 10 * items, "cost-forest", "position {p}, {allowed:?}: {others} other calls into the forest");
            ensure!(lookups <= 50 + 30 * (items + entries), "cost-lookups", "position {p}, {allowed:?}: {lookups} grammar lookups");
            let kept = rec.medial_items().count() as u64;
            ensure!(kept <= 2 * items, "cost-items", "position {p}, {allowed:?}: {kept} items in progress");
            let bytes = 3 * 24 * total + 3 * row * positions + 16_384;
            ensure!(live - live0 <= bytes as i64, "cost-memory", "position {p}: {} bytes taken, more than {bytes}", live - live0);
        }
        if deepest > 50 {
            ctx.probe("deep-reductions");
        }
        meter.fuse.set(0);
        if last {
            if whole && !failed {
                let fin = no_panic("finished", || rec.is_finished())?;
                ensure!(fin, "verdict", "a whole sentence did not finish");
                ctx.fired("finished");
            }
            ctx.nontrivial = toks.len() > 20;
        } else {
            no_panic("reset", || stream::counted(|| rec.reset()))?;
            ctx.fired("reset");
        }
        ctx.span_end(s0);
    }
    Ok(())
}
