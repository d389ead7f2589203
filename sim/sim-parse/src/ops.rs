//! What can be done to a recognizer and observed of it, plans (the tokens of a whole session, with what the reference
//! says about them) and scripts (operations together with disturbances). Nothing here touches a recognizer.

use super::forests::*;
use super::gram::*;
use super::refs::*;
use cfg_symbol::Symbol;
use gearley_grammar::Grammar;
use simcore::*;

pub fn sym(i: usize) -> Symbol {
    Symbol::from_raw(i as u32)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    /// `end_earleme`.
    Auto,
    /// `complete_all_sums_entirely` and `advance_after_completion`.
    AllSums,
    /// Fragment by fragment; the number decides between whole and single steps for each.
    Manual(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Begin,
    Scan(Tok),
    Hint(usize),
    ClearHint,
    End { how: How, unamb: bool },
    /// Reads progress reports; the result must not matter.
    Query(u32),
}

/// A fragment as it was offered.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Offered {
    pub sym: usize,
    pub origin: usize,
    /// Dot and split position (if the forest can tell) of each alternative.
    pub alts: Vec<(u32, Option<usize>)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Progress {
    pub pred: Vec<u32>,
    pub medial: Vec<(u32, usize)>,
    pub expected: Vec<u32>,
    pub trace: Vec<(u32, u32, usize)>,
    pub events: Vec<(u32, u32)>,
    pub distances: Vec<u32>,
}

impl Progress {
    pub fn dedup(mut self) -> Progress {
        self.medial.dedup();
        self.expected.dedup();
        self.trace.dedup();
        self.events.dedup();
        self.distances.dedup();
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Progress(Progress),
    End { ok: bool, fin: Option<String> },
    Offered(Vec<Offered>),
}

// --------------------------------------------------------------------------------------------------------- plans

#[derive(Clone, Debug)]
pub struct Pos {
    pub rejects: Vec<Vec<Tok>>,
    pub offer: Vec<Tok>,
    /// The trees of the input up to here, if finished.
    pub fin: Option<P>,
    pub pred: Vec<u32>,
    pub medial: Vec<(u32, usize)>,
    pub frags: Vec<Frag>,
}

impl Pos {
    pub fn unamb(&self) -> bool {
        self.fin.as_ref().map_or(false, |p| p.t.is_some())
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub poss: Vec<Pos>,
    /// Tokens that do not fit at the end.
    pub bad_end: Option<Vec<Tok>>,
}

#[derive(Clone, Copy, Debug)]
pub struct PlanOpts {
    pub max_len: u32,
    pub alternatives: bool,
    pub junk_in_offers: bool,
    pub rejects: bool,
    pub texts: bool,
    /// Derive sentences rather than walk at random.
    pub sentences: bool,
    /// Long streams of deeply nested derivations.
    pub grow: bool,
}

impl Default for PlanOpts {
    fn default() -> Self {
        PlanOpts { max_len: 14, alternatives: true, junk_in_offers: true, rejects: true, texts: false, sentences: true, grow: false }
    }
}

pub fn value(ctx: &mut Ctx, i: usize) -> u32 {
    match ctx.below(8) {
        7 => ctx.spread_u32(),
        _ => i as u32,
    }
}

/// Tokens that do not fit now, end of input and start of input among the candidates.
pub fn junk(ctx: &mut Ctx, g: &TestGrammar, r: &BRef) -> Vec<Tok> {
    let pred = r.predicted();
    let mut cands: Vec<usize> = g.tokens();
    cands.retain(|&t| !pred.contains(&(t as u32)));
    if cands.is_empty() {
        return vec![];
    }
    let n = 1 + ctx.below(3);
    let mut v: Vec<Tok> = vec![];
    for _ in 0..n {
        let s = *ctx.pick(&cands);
        if !v.iter().any(|t| t.sym == s) {
            let val = ctx.below(4) + 1000;
            v.push(Tok { sym: s, val });
        }
    }
    v
}

pub fn gen_plan(ctx: &mut Ctx, g: &TestGrammar, opts: PlanOpts) -> Plan {
    let s0 = ctx.span_start();
    let mut r = BRef::new(g, opts.texts);
    let max = 1 + ctx.below(opts.max_len) as usize;
    let base: Vec<usize> = if opts.sentences && (opts.grow || ctx.chance(3, 4)) {
        g.orig.sentence_of(ctx, max, opts.grow).into_iter().map(|t| g.term_of(t)).collect()
    } else {
        vec![]
    };
    let walk = base.is_empty() || ctx.chance(1, 5);
    let len = if walk { max } else { base.len().min(max * 2) };
    let mut poss = vec![];
    let mut work = 0;
    for i in 0..len {
        let s1 = ctx.span_start();
        let viable = r.viable();
        work += r.frags.iter().map(|f| 1 + f.alts.len()).sum::<usize>();
        if viable.is_empty() || work > 40_000 {
            ctx.span_end(s1);
            break;
        }
        let mut rejects = vec![];
        if opts.rejects && ctx.chance(1, 4) {
            for _ in 0..1 + ctx.below(2) {
                let j = junk(ctx, g, &r);
                if !j.is_empty() {
                    rejects.push(j);
                }
            }
        }
        let follow = base.get(i).filter(|t| viable.contains(t));
        let main = match follow {
            Some(&t) if !ctx.chance(1, if opts.grow { 400 } else { 16 }) => t,
            _ => *ctx.pick(&viable),
        };
        let val = value(ctx, i);
        let mut offer = vec![Tok { sym: main, val }];
        if opts.alternatives && ctx.chance(1, 4) {
            for _ in 0..1 + ctx.below(2) {
                let t = *ctx.pick(&viable);
                if !offer.iter().any(|o| o.sym == t) {
                    let val = value(ctx, i + 500);
                    offer.push(Tok { sym: t, val });
                }
            }
        }
        if opts.junk_in_offers && ctx.chance(1, 8) {
            offer.extend(junk(ctx, g, &r));
        }
        if opts.alternatives {
            ctx.shuffle(&mut offer[..]);
        }
        assert!(r.step(&offer, &NoVeto), "harness: plan offers nothing viable");
        poss.push(Pos {
            rejects,
            offer,
            fin: r.finished(),
            pred: r.predicted(),
            medial: r.medial(),
            frags: r.frags.clone(),
        });
        ctx.span_end(s1);
    }
    let bad_end = if opts.rejects && ctx.chance(1, 3) {
        let j = junk(ctx, g, &r);
        if j.is_empty() {
            None
        } else {
            Some(j)
        }
    } else {
        None
    };
    ctx.span_end(s0);
    Plan { poss, bad_end }
}

/// How the operations of a plan are made.
#[derive(Clone, Copy, Debug, Default)]
pub struct OpOpts {
    pub rejects: bool,
    pub queries: bool,
    /// 0: always automatic, 1: always by hand, 2: mixed.
    pub manual: u32,
    pub bad_end: bool,
}

pub fn draw_how(ctx: &mut Ctx, manual: u32) -> How {
    match manual {
        0 => How::Auto,
        1 => How::Manual(ctx.below(4) as u64),
        _ => match ctx.below(4) {
            0 | 1 => How::Auto,
            2 => How::AllSums,
            _ => How::Manual(ctx.below(4) as u64),
        },
    }
}

/// Operations of a whole session, with the verdict that each closing should give.
pub fn plan_ops(ctx: &mut Ctx, g: &TestGrammar, plan: &Plan, o: OpOpts) -> Vec<(Op, Option<bool>)> {
    let mut v: Vec<(Op, Option<bool>)> = vec![];
    let q = |ctx: &mut Ctx, v: &mut Vec<(Op, Option<bool>)>| {
        if o.queries && ctx.chance(1, 4) {
            let w = 1 + ctx.below(31);
            v.push((Op::Query(w), None));
        }
    };
    let attempt = |ctx: &mut Ctx, v: &mut Vec<(Op, Option<bool>)>, toks: &[Tok], ok: bool, unamb: bool| {
        for t in toks {
            v.push((Op::Scan(t.clone()), None));
            q(ctx, v);
        }
        let how = draw_how(ctx, o.manual);
        v.push((Op::End { how, unamb }, Some(ok)));
        q(ctx, v);
    };
    q(ctx, &mut v);
    v.push((Op::Begin, None));
    attempt(ctx, &mut v, &[Tok { sym: g.sof_num(), val: 0 }], true, false);
    for p in &plan.poss {
        let s = ctx.span_start();
        v.push((Op::Begin, None));
        q(ctx, &mut v);
        if o.rejects {
            for r in &p.rejects {
                attempt(ctx, &mut v, r, false, false);
            }
        }
        attempt(ctx, &mut v, &p.offer, true, p.unamb());
        ctx.span_end(s);
    }
    v.push((Op::Begin, None));
    if o.bad_end {
        if let Some(b) = &plan.bad_end {
            attempt(ctx, &mut v, b, false, false);
        }
    }
    v
}

pub fn compare<T: PartialEq + std::fmt::Debug>(class: &str, a: &[T], b: &[T], what: &str) -> R {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (x, y) => {
                return violation(class, format!("{what}: observation {i} differs: {} and {}", short(x), short(y)));
            }
        }
    }
    Ok(())
}

pub fn short<T: std::fmt::Debug>(x: T) -> String {
    let s = format!("{x:?}");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

pub fn gen_grammar(ctx: &mut Ctx, opts: &GenOpts) -> TestGrammar {
    let o = gen_orig(ctx, opts);
    let g = TestGrammar::prepare(o, ctx);
    if ctx.tracing() {
        let d = g.describe();
        ctx.note(format_args!("grammar {d}"));
        let nums: Vec<String> = g.kinds.iter().enumerate().take(60).map(|(i, k)| format!("{i}={k:?}")).collect();
        ctx.note(format_args!("symbols {}", nums.join(" ")));
        for (d, r) in g.rules.iter().enumerate().take(80) {
            ctx.note(format_args!(
                "dot {d}: {} ::= {} {:?} elim {:?} origin {:?}",
                r.lhs,
                r.rhs0.sym,
                r.rhs1.map(|s| s.sym),
                r.elim.map(|(s, d)| (s.sym, d)),
                r.origin
            ));
        }
    }
    ev!(ctx, "grammar of {} rules, {} symbols, {} generated", g.rules.len(), g.syms, g.gensyms);
    g
}

/// Adds truthful hints to the operations of a plan: the hint names the only token offered next. Some are lost.
pub fn add_hints(ctx: &mut Ctx, g: &TestGrammar, plan: &Plan, ops: Vec<(Op, Option<bool>)>) -> Vec<(Op, Option<bool>)> {
    let _ = g;
    let mut v = vec![];
    let mut begins = 0;
    for o in ops {
        let begin = o.0 == Op::Begin;
        v.push(o);
        if begin {
            // The first position reads the start of input; position k + 1 offers plan.poss[k].
            if let Some(next) = plan.poss.get(begins) {
                if next.offer.len() == 1 && ctx.chance(2, 3) {
                    v.push((Op::Hint(next.offer[0].sym), None));
                    if ctx.chance(1, 6) {
                        v.push((Op::ClearHint, None));
                        ctx.fired("hint-lost");
                    } else {
                        ctx.fired("hint");
                    }
                }
            }
            begins += 1;
        }
    }
    v
}

pub fn draw_limit(ctx: &mut Ctx) -> usize {
    *ctx.pick(&[8192, 0, 1024, 20_000, 600_000, 3_000_000])
}

pub fn draw_kind(ctx: &mut Ctx) -> FKind {
    *ctx.pick(&[FKind::Rec, FKind::Null, FKind::Simple, FKind::Compact])
}

pub fn log_ops(ctx: &mut Ctx, ops: &[(Op, Option<bool>)]) {
    for (op, _) in ops {
        ev!(ctx, "  {op:?}");
    }
    ctx.steps += ops.len() as u64;
}

pub fn show_plan(ctx: &mut Ctx, plan: &Plan) {
    for (i, p) in plan.poss.iter().enumerate() {
        let s: Vec<String> = p.offer.iter().map(|t| format!("{}:{}", t.sym, t.val)).collect();
        ev!(ctx, "position {} offers [{}]{}", i + 2, s.join(" "), if p.fin.is_some() { " finished" } else { "" });
    }
}

// ------------------------------------------------------------------------------------------------------- scripts

#[derive(Clone, Debug)]
pub enum X {
    Op(Op),
    /// Completes some groups by hand, then leaves one half done.
    Partial { groups: u32, pops: u32, pushes: u32, sum: bool },
    /// Completes everything, but does not advance.
    NoAdvance,
    Reset,
    /// Drops the recognizer and makes a new one over the same forest store.
    Recreate,
    /// Lets the n-th forest callback from now on fail.
    Arm(i64, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum XObs {
    Obs(Obs),
    /// A callback failed; everything up to the next reset is skipped.
    Failed(&'static str),
    Started(bool),
}

#[derive(Clone, Copy, Debug, Default)]
pub struct ScriptOpts {
    pub fuses: bool,
    pub recreate: bool,
    pub max_len: u32,
}

/// One abandoned session: a prefix of some plan, perhaps a half-done completion, then one or more resets.
pub fn abandoned(ctx: &mut Ctx, g: &TestGrammar, o: ScriptOpts) -> Vec<X> {
    let s0 = ctx.span_start();
    let plan = gen_plan(ctx, g, PlanOpts { max_len: o.max_len, ..Default::default() });
    let ops = plan_ops(ctx, g, &plan, OpOpts { rejects: true, queries: true, manual: 2, bad_end: true });
    let mut v: Vec<X> = vec![];
    if o.fuses {
        let n = 1 + ctx.below(3 * ops.len() as u32 + 4);
        let after = ctx.chance(1, 2);
        v.push(X::Arm(n as i64, after));
    }
    let cut = if o.fuses { ops.len() } else { ctx.below(ops.len() as u32 + 1) as usize };
    let hints = ctx.chance(1, 2);
    for (op, _) in &ops[..cut] {
        v.push(X::Op(op.clone()));
        if hints && *op == Op::Begin && ctx.chance(1, 4) {
            // Any hint at all: this session is not judged.
            let h = ctx.below(g.syms as u32) as usize;
            v.push(X::Op(Op::Hint(h)));
        }
    }
    if !o.fuses {
        let name = match ops.get(cut.wrapping_sub(1)).map(|x| &x.0) {
            None => "abandon-before-first-position",
            Some(Op::Begin) => "abandon-after-begin",
            Some(Op::Scan(_)) => match ctx.below(4) {
                0 => "abandon-with-tokens-scanned",
                1 => {
                    v.push(X::NoAdvance);
                    "abandon-before-advance"
                }
                _ => {
                    let groups = ctx.below(3);
                    let pops = 1 + ctx.below(3);
                    let pushes = ctx.below(pops + 1);
                    let sum = ctx.chance(1, 3);
                    v.push(X::Partial { groups, pops, pushes, sum });
                    "abandon-mid-group"
                }
            },
            Some(Op::End { .. }) if ops[cut - 1].1 == Some(false) => "abandon-after-rejection",
            Some(_) => "abandon-elsewhere",
        };
        ctx.fired(name);
        if ctx.chance(1, 8) && cut > 0 {
            let h = ctx.below(g.syms as u32) as usize;
            v.push(X::Op(Op::Hint(h)));
            ctx.fired("abandon-with-hint-pending");
        }
    }
    for _ in 0..1 + ctx.below(6) / 5 {
        v.push(X::Reset);
        ctx.fired("reset");
    }
    if o.recreate && ctx.chance(1, 4) {
        v.pop();
        v.push(X::Recreate);
        ctx.fired("recognizer-dropped");
    }
    ctx.span_end(s0);
    v
}

/// A session that is looked at: every observation counts.
pub fn judged(ctx: &mut Ctx, g: &TestGrammar, max_len: u32, texts: bool) -> Vec<(Op, Option<bool>)> {
    let plan = gen_plan(ctx, g, PlanOpts { max_len, texts, ..Default::default() });
    let queries = ctx.chance(1, 3);
    let ops = plan_ops(ctx, g, &plan, OpOpts { rejects: true, queries, manual: 2, bad_end: true });
    if ctx.chance(1, 3) {
        add_hints(ctx, g, &plan, ops)
    } else {
        ops
    }
}

pub fn show_script(ctx: &mut Ctx, v: &[X]) {
    for x in v {
        ev!(ctx, "  {x:?}");
    }
    ctx.steps += v.len() as u64;
}
