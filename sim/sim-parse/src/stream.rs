//! R09: endless left-recursive streams in bounded space.

use super::gram::*;
use super::session::sym;
use gearley_forest::NullForest;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use simcore::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

// ------------------------------------------------------------------------------------------- counting allocator

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

/// Counts the bytes that the code under test holds: only while switched on, only in this thread.
pub struct Counting;

fn count(d: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = LIVE.try_with(|l| {
                let v = l.get() + d;
                l.set(v);
                let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            });
        }
    });
}

// SAFETY: defers to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn counted<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}

pub fn clear() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

// ------------------------------------------------------------------------------------------------------- streams

// Terminals, after the nonterminals.
const SEMI: usize = 0;
const LB: usize = 1;
const RB: usize = 2;
const LP: usize = 3;
const RP: usize = 4;
const COMMA: usize = 5;
const PLUS: usize = 6;
const STAR: usize = 7;
const A: usize = 8;
const B: usize = 9;
const C: usize = 10;
const TERMS: usize = 11;

struct Shape {
    list: u32,
    arith: bool,
    call: bool,
    opt: bool,
    pair: bool,
}

fn grammar(ctx: &mut Ctx) -> (Orig, Shape) {
    let s = ctx.span_start();
    let sh = Shape {
        list: ctx.below(4),
        arith: ctx.chance(1, 2),
        call: ctx.chance(1, 2),
        opt: ctx.chance(1, 2),
        pair: ctx.chance(1, 2),
    };
    let (st, i, e, t, f, c, o, l) = (0, 1, 2, 3, 4, 5, 6, 7);
    let nt = 8;
    let x = |k: usize| nt + k;
    let mut r: Vec<(usize, Vec<usize>)> = match sh.list {
        0 => vec![(st, vec![st, i]), (st, vec![i])],
        1 => vec![(st, vec![st, i]), (st, vec![])],
        2 => vec![(st, vec![st, x(COMMA), i]), (st, vec![i])],
        _ => vec![(st, vec![l]), (l, vec![l, i]), (l, vec![i])],
    };
    r.push((i, vec![x(A), x(SEMI)]));
    r.push((i, vec![x(LB), st, x(RB)]));
    if sh.pair {
        r.push((i, vec![x(A), x(B), x(SEMI)]));
        r.push((i, vec![x(A), x(B), x(C), x(SEMI)]));
    }
    if sh.arith {
        r.push((i, vec![e, x(SEMI)]));
        r.push((e, vec![e, x(PLUS), t]));
        r.push((e, vec![t]));
        r.push((t, vec![t, x(STAR), f]));
        r.push((t, vec![f]));
        r.push((f, vec![x(A)]));
        r.push((f, vec![x(LP), e, x(RP)]));
    }
    if sh.call {
        r.push((i, vec![x(B), x(LP), c, x(RP), x(SEMI)]));
        r.push((c, vec![c, x(COMMA), x(A)]));
        r.push((c, vec![x(A)]));
    }
    if sh.opt {
        r.push((i, vec![o, x(C), x(SEMI)]));
        r.push((o, vec![]));
        r.push((o, vec![x(B)]));
    }
    ctx.shuffle(&mut r[2..]);
    ctx.span_end(s);
    (Orig::from_proposals(nt, TERMS, r), sh)
}

/// A token, how deep it is nested, and whether a whole input ends with it.
#[derive(Clone, Copy, Debug)]
struct T {
    t: usize,
    depth: usize,
    /// Tokens of unfinished expressions, whose parts have no certain end yet.
    open: usize,
    end: bool,
}

struct Gen<'a> {
    sh: &'a Shape,
    out: Vec<T>,
    max_depth: usize,
    budget: usize,
    open: usize,
}

impl Gen<'_> {
    fn tok(&mut self, t: usize, depth: usize) {
        self.out.push(T { t, depth, open: self.open, end: false });
    }
    /// Items of a list; the drawn items are repeated.
    fn list(&mut self, ctx: &mut Ctx, depth: usize, reps: u32) {
        let s = ctx.span_start();
        let from = self.out.len();
        let n = 1 + ctx.below(4);
        for k in 0..n {
            if k > 0 && self.sh.list == 2 {
                self.tok(COMMA, depth);
            }
            self.item(ctx, depth);
        }
        let block: Vec<T> = self.out[from..].to_vec();
        for _ in 1..reps {
            if self.out.len() + block.len() > self.budget {
                break;
            }
            if self.sh.list == 2 {
                self.tok(COMMA, depth);
            }
            self.out.extend(&block);
        }
        ctx.span_end(s);
    }
    fn item(&mut self, ctx: &mut Ctx, depth: usize) {
        let s = ctx.span_start();
        let deep = depth < self.max_depth;
        match ctx.below(10) {
            1 if deep => {
                self.tok(LB, depth + 1);
                let reps = 1 + ctx.below(12);
                self.list(ctx, depth + 1, reps);
                self.tok(RB, depth);
            }
            2 | 3 if self.sh.arith => {
                self.expr(ctx, depth);
                self.open = 0;
                self.tok(SEMI, depth);
            }
            4 | 5 if self.sh.call => {
                self.tok(B, depth);
                self.tok(LP, depth + 1);
                for k in 0..1 + ctx.below(30) {
                    if k > 0 {
                        self.tok(COMMA, depth + 1);
                    }
                    self.tok(A, depth + 1);
                }
                self.tok(RP, depth);
                self.tok(SEMI, depth);
            }
            6 if self.sh.opt => {
                if ctx.chance(1, 2) {
                    self.tok(B, depth);
                }
                self.tok(C, depth);
                self.tok(SEMI, depth);
            }
            7 | 8 if self.sh.pair => {
                self.tok(A, depth);
                self.tok(B, depth);
                if ctx.chance(1, 2) {
                    self.tok(C, depth);
                }
                self.tok(SEMI, depth);
            }
            _ => {
                self.tok(A, depth);
                self.tok(SEMI, depth);
            }
        }
        if depth == 0 {
            self.out.last_mut().unwrap().end = true;
        }
        ctx.span_end(s);
    }
    fn expr(&mut self, ctx: &mut Ctx, depth: usize) {
        let s = ctx.span_start();
        for k in 0..1 + ctx.below(8) {
            if k > 0 {
                let op = *ctx.pick(&[PLUS, STAR]);
                self.open += 1;
                self.tok(op, depth);
            }
            self.open += 1;
            if depth < self.max_depth && ctx.chance(1, 5) {
                let open = self.open;
                self.tok(LP, depth + 1);
                self.expr(ctx, depth + 1);
                self.open = open;
                self.tok(RP, depth);
            } else {
                self.tok(A, depth);
            }
        }
        ctx.span_end(s);
    }
    /// The worst that any item of this stream can need, so that every buffer has its final size afterwards.
    fn stress(&mut self) {
        let d = self.max_depth;
        for k in 0..d {
            self.tok(LB, k + 1);
        }
        for _ in 0..3 {
            if self.sh.pair {
                for t in [A, B, C, SEMI] {
                    self.tok(t, d);
                }
                if self.sh.list == 2 {
                    self.tok(COMMA, d);
                }
            }
            if self.sh.call {
                for t in [B, LP, A, COMMA, A, RP, SEMI] {
                    self.tok(t, d + 1);
                }
                if self.sh.list == 2 {
                    self.tok(COMMA, d);
                }
            }
            if self.sh.opt {
                for t in [B, C, SEMI] {
                    self.tok(t, d);
                }
                if self.sh.list == 2 {
                    self.tok(COMMA, d);
                }
            }
            for t in [A, SEMI] {
                self.tok(t, d);
            }
            if self.sh.list == 2 {
                self.tok(COMMA, d);
            }
        }
        if self.sh.arith {
            // The longest expressions, nested as deep as they ever are.
            for k in 0..d {
                for i in 0..16 {
                    self.open += 1;
                    self.tok([A, PLUS, A, STAR][i % 4], d + k);
                }
                self.open += 1;
                self.tok(LP, d + k + 1);
            }
            self.open += 1;
            self.tok(A, 2 * d);
            for k in 0..d {
                self.tok(RP, 2 * d - k - 1);
            }
            self.open = 0;
            self.tok(SEMI, d);
        } else {
            for t in [A, SEMI] {
                self.tok(t, d);
            }
        }
        for k in 0..d {
            self.tok(RB, d - k - 1);
        }
        self.out.last_mut().unwrap().end = true;
    }
}

/// What happens at one token of a repeated block, every time or every n-th time.
#[derive(Clone, Copy, Debug)]
struct Disturb {
    at: usize,
    every: usize,
    what: u32,
}

pub fn r09(ctx: &mut Ctx) -> R {
    let (orig, sh) = grammar(ctx);
    let g = TestGrammar::prepare(orig, ctx);
    let max_depth = 1 + ctx.below(5) as usize;
    let total = match ctx.weighted(&[6, 3, 1]) {
        0 => 1500 + ctx.below(3000),
        1 => 4000 + ctx.below(6000),
        _ => 12_000 + ctx.below(24_000),
    } as usize;
    let limit = *ctx.pick(&[8192usize, 0, 20_000]);
    // What happens on the way.
    let mut disturb: Vec<Disturb> = vec![];
    for _ in 0..ctx.below(6) {
        let d = Disturb { at: ctx.below(40) as usize, every: 1 + ctx.below(7) as usize, what: ctx.below(7) };
        disturb.push(d);
    }
    let resets = ctx.chance(1, 4);
    let style = ctx.below(3);
    ev!(ctx, "{} rules, list {}, depth {max_depth}, about {total} tokens, limit {limit}, {disturb:?}, resets {resets}, style {style}", g.rules.len(), sh.list);

    let mut live0 = 0;
    LIVE.with(|l| {
        l.set(0);
        live0 = l.get();
    });
    PEAK.with(|p| p.set(0));
    let mut rec: Recognizer<&TestGrammar, NullForest> = no_panic("creation", || {
        counted(|| {
            if limit == 8192 {
                Recognizer::new(&g)
            } else {
                Recognizer::with_forest_and_policy(&g, NullForest, DefaultPerfHint::new(limit))
            }
        })
    })?;
    let start = |rec: &mut Recognizer<&TestGrammar, NullForest>| {
        counted(|| {
            rec.begin_earleme();
            rec.scan(sym(g.sof_num()), 0);
            rec.end_earleme()
        })
    };
    let mut read = 0usize;
    let mut warm_peak = 0i64;
    let mut block_no = 0;
    let mut most = 0usize;
    let mut after_reset = true;
    while read < total {
        let s0 = ctx.span_start();
        // The stress prefix comes first; then drawn blocks, repeated.
        let mut gen = Gen { sh: &sh, out: vec![], max_depth, budget: 2000, open: 0 };
        let reps;
        if block_no == 0 {
            gen.stress();
            reps = 2;
        } else {
            let inner = 1 + ctx.below(6);
            gen.list(ctx, 0, inner);
            // Runs are as long as drawn.
            reps = 1 + ctx.below(400) as usize;
        }
        let block = gen.out;
        let reset_every = if resets && block_no > 0 { 1 + ctx.below(5) as usize } else { 0 };
        let reset_at = ctx.below(block.len() as u32) as usize;
        ev!(ctx, "block of {} tokens, {reps} times, reset {reset_every} at {reset_at}", block.len());
        let mut rep = 0;
        while rep < reps && read < total {
            let mut k = 0;
            if after_reset {
                let ok = no_panic("start", || start(&mut rec))?;
                ensure!(ok, "stream-verdict", "start of input rejected");
                after_reset = false;
            } else if sh.list == 2 {
                let ok = no_panic("separator", || {
                    counted(|| {
                        rec.begin_earleme();
                        rec.scan(sym(g.term_of(8 + COMMA)), 0);
                        rec.end_earleme()
                    })
                })?;
                ensure!(ok, "stream-verdict", "separator rejected at token {read}");
            }
            while k < block.len() {
                let t = block[k];
                read += 1;
                let val = read as u32;
                let num = g.term_of(8 + t.t);
                let mut hint = None;
                let mut reject = false;
                let mut query = false;
                let mut lost = false;
                let mut by_hand = style;
                for d in &disturb {
                    if d.at % block.len() == k && rep % d.every == 0 {
                        match d.what {
                            0 => reject = true,
                            1 | 2 => {
                                hint = block.get(k + 1).map(|n| g.term_of(8 + n.t));
                                lost = d.what == 2;
                            }
                            3 => query = true,
                            4 => by_hand = (style + 1) % 3,
                            5 => {
                                reject = true;
                                query = true;
                            }
                            _ => by_hand = (style + 2) % 3,
                        }
                    }
                }
                if reject {
                    ctx.fired("rejected-offer");
                }
                if query {
                    ctx.fired("query");
                }
                if hint.is_some() {
                    ctx.fired(if lost { "hint-lost" } else { "hint" });
                }
                let prev_end = k == 0 || block[k - 1].end;
                let r = no_panic("reading", || {
                    counted(|| {
                        rec.begin_earleme();
                        if reject {
                            rec.scan(sym(g.sof_num()), 7);
                            // The end of input fits only where the input may end.
                            if !prev_end {
                                rec.scan(sym(0), 7);
                            }
                            if rec.end_earleme() {
                                return Err("the start of input was accepted in the middle");
                            }
                        }
                        if let Some(h) = hint {
                            rec.lookahead().set_hint(sym(h));
                            if lost {
                                rec.lookahead().clear_hint();
                            }
                        }
                        if query {
                            let _ = rec.predicted_symbols().count() + rec.medial_items().count() + rec.expected_terminals().count();
                            let _ = rec.trace().count() + rec.events().count() + rec.minimal_distances().count();
                        }
                        rec.scan(sym(num), val);
                        let ok = match by_hand {
                            0 => rec.end_earleme(),
                            1 => {
                                if rec.is_exhausted() {
                                    false
                                } else {
                                    rec.complete_all_sums_entirely();
                                    rec.advance_after_completion();
                                    true
                                }
                            }
                            _ => {
                                if rec.is_exhausted() {
                                    false
                                } else {
                                    while let Some(mut gr) = rec.next_sum() {
                                        while let Some(it) = gr.next_summand() {
                                            gr.push_summand(it);
                                        }
                                        gr.complete_sum();
                                    }
                                    rec.advance_after_completion();
                                    true
                                }
                            }
                        };
                        Ok((ok, rec.is_finished(), rec.earleme()))
                    })
                })?;
                let (ok, fin, earleme) = match r {
                    Ok(v) => v,
                    Err(e) => return violation("stream-verdict", e),
                };
                ensure!(ok, "stream-verdict", "token {read} ({t:?}) rejected");
                let unhinted = hint.is_none() || lost;
                ensure!(fin == t.end || !unhinted, "stream-verdict", "token {read} ({t:?}): finished {fin}");
                // With some room: the bound may be any that does not depend on how much was read.
                let bound = 16 + 6 * t.depth + 2 * t.open;
                if earleme > bound && ctx.tracing() {
                    ctx.note(format_args!("token {read} {t:?}: {earleme} retained"));
                }
                ensure!(
                    earleme <= bound,
                    "retained-positions",
                    "after {read} tokens, at depth {}: {earleme} positions retained, more than {bound}",
                    t.depth
                );
                most = most.max(earleme);
                if ctx.tracing() {
                    ctx.note(format_args!("token {read} {t:?}: {earleme} retained"));
                }
                k += 1;
                if reset_every > 0 && rep % reset_every == 0 && k - 1 == reset_at {
                    no_panic("reset", || counted(|| rec.reset()))?;
                    ctx.fired("reset");
                    after_reset = true;
                    break;
                }
            }
            rep += 1;
            let live = LIVE.with(|l| l.get());
            if block_no > 0 {
                let bound = 2 * warm_peak + 4096;
                ensure!(
                    live <= bound,
                    "live-memory",
                    "after {read} tokens: {live} bytes held, more than {bound} (most in the warm-up: {warm_peak})"
                );
            }
        }
        if block_no == 0 {
            warm_peak = PEAK.with(|p| p.get());
        }
        block_no += 1;
        ctx.span_end(s0);
    }
    ctx.steps += read as u64;
    ctx.nontrivial = read > 1000;
    if read >= 12_000 {
        ctx.probe("long-stream");
    }
    if most > 20 {
        ctx.probe("deeply-nested");
    }
    no_panic("drop", || counted(|| drop(rec)))?;
    let live = LIVE.with(|l| l.get());
    ensure!(live <= 0, "live-memory", "{live} bytes left after the recognizer was dropped");
    ev!(ctx, "{read} tokens, at most {most} positions, warm-up {warm_peak} bytes");
    Ok(())
}
