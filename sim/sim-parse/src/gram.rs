//! Random context-free grammars without unit cycles, and their preparation (wrapping, binarization, elimination
//! of empty rules, numbering) into the tables that the recognizer's `Grammar` trait asks for.

use bit_matrix::row::BitSlice;
use bit_matrix::BitMatrix;
use cfg_history::earley::{
    EventAndDistance, EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance, NullingEliminated,
};
use cfg_symbol::Symbol;
use gearley_grammar::{ForestInfo, Grammar, NullingIntermediateRule, PredictionTransition};
use simcore::*;
use std::collections::BTreeMap;

/// The grammar as a user writes it. Symbols: nonterminals 0..nt (start 0), terminals nt..nt+tt.
#[derive(Clone, Debug)]
pub struct Orig {
    pub nt: usize,
    pub tt: usize,
    pub rules: Vec<(usize, Vec<usize>)>,
    pub nullable: Vec<bool>,
}

impl Orig {
    pub fn is_term(&self, s: usize) -> bool {
        s >= self.nt
    }
    pub fn syms(&self) -> usize {
        self.nt + self.tt
    }

    fn nullables(nt: usize, n: usize, rules: &[(usize, Vec<usize>)]) -> Vec<bool> {
        let mut v = vec![false; n];
        let _ = nt;
        loop {
            let mut changed = false;
            for (l, r) in rules {
                if !v[*l] && r.iter().all(|&s| v[s]) {
                    v[*l] = true;
                    changed = true;
                }
            }
            if !changed {
                return v;
            }
        }
    }

    fn has_unit_cycle(nt: usize, n: usize, rules: &[(usize, Vec<usize>)]) -> bool {
        let nullable = Self::nullables(nt, n, rules);
        let mut edge = vec![false; nt * nt];
        for (l, r) in rules {
            let nn = r.iter().filter(|&&s| !nullable[s]).count();
            for &s in r {
                if s < nt && (nn == 0 || (nn == 1 && !nullable[s])) {
                    edge[l * nt + s] = true;
                }
            }
        }
        // DFS for a cycle.
        fn visit(u: usize, nt: usize, edge: &[bool], state: &mut [u8]) -> bool {
            state[u] = 1;
            for v in 0..nt {
                if edge[u * nt + v] && (state[v] == 1 || (state[v] == 0 && visit(v, nt, edge, state))) {
                    return true;
                }
            }
            state[u] = 2;
            false
        }
        let mut state = vec![0; nt];
        (0..nt).any(|u| state[u] == 0 && visit(u, nt, &edge, &mut state))
    }

    /// Builds a proper grammar out of proposed rules; proposals that would close a unit cycle are left out.
    pub fn from_proposals(nt: usize, tt: usize, proposals: Vec<(usize, Vec<usize>)>) -> Orig {
        let n = nt + tt;
        let mut rules: Vec<(usize, Vec<usize>)> = vec![];
        for p in proposals {
            rules.push(p);
            if Self::has_unit_cycle(nt, n, &rules) {
                rules.pop();
            }
        }
        // Productive: give every unproductive nonterminal a terminal rule.
        loop {
            let mut prod = vec![false; n];
            for t in nt..n {
                prod[t] = true;
            }
            loop {
                let mut changed = false;
                for (l, r) in &rules {
                    if !prod[*l] && r.iter().all(|&s| prod[s]) {
                        prod[*l] = true;
                        changed = true;
                    }
                }
                if !changed {
                    break;
                }
            }
            match (0..nt).find(|&a| !prod[a]) {
                Some(a) => rules.push((a, vec![nt + a % tt])),
                None => break,
            }
        }
        // Reachable.
        let mut reach = vec![false; n];
        reach[0] = true;
        loop {
            let mut changed = false;
            for (l, r) in &rules {
                if reach[*l] {
                    for &s in r {
                        if !reach[s] {
                            reach[s] = true;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        rules.retain(|(l, _)| reach[*l]);
        let nullable = Self::nullables(nt, n, &rules);
        Orig { nt, tt, rules, nullable }
    }

    /// Sentence drawn by random derivation.
    pub fn sentence(&self, ctx: &mut Ctx, budget: usize) -> Vec<usize> {
        self.sentence_of(ctx, budget, false)
    }
    /// Growing derivations prefer rules with nonterminals until the budget is spent.
    pub fn sentence_of(&self, ctx: &mut Ctx, budget: usize, grow: bool) -> Vec<usize> {
        // Minimal heights, so that a derivation can be cut short.
        let mut height = vec![usize::MAX / 2; self.syms()];
        for t in self.nt..self.syms() {
            height[t] = 0;
        }
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                let h = 1 + r.iter().map(|&s| height[s]).max().unwrap_or(0);
                if h < height[*l] {
                    height[*l] = h;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut out = vec![];
        let mut stack = vec![0usize];
        let mut steps = 0;
        while let Some(s) = stack.pop() {
            if self.is_term(s) {
                out.push(s);
                continue;
            }
            steps += 1;
            let rules: Vec<&Vec<usize>> = self.rules.iter().filter(|r| r.0 == s).map(|r| &r.1).collect();
            let spent = steps + out.len() + stack.len() > budget;
            let growing: Vec<&Vec<usize>> = if grow && !spent && ctx.chance(15, 16) {
                rules.iter().copied().filter(|r| r.iter().any(|&s| !self.is_term(s))).collect()
            } else {
                vec![]
            };
            let rules = if growing.is_empty() { rules } else { growing };
            let r = if spent {
                *rules.iter().min_by_key(|r| r.iter().map(|&s| height[s]).max().unwrap_or(0)).unwrap()
            } else {
                rules[ctx.below(rules.len() as u32) as usize]
            };
            for &s in r.iter().rev() {
                stack.push(s);
            }
            if out.len() > 4000 {
                break;
            }
        }
        out
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct GenOpts {
    /// Prefer grammars that are unambiguous by construction.
    pub unambiguous: bool,
    /// No large swarm configurations.
    pub small: bool,
    /// Hundreds of ways to read one token.
    pub wide: bool,
}

/// Fixed shapes that random rules seldom hit; `t(i)` and `n(i)` number terminals and nonterminals.
fn template(ctx: &mut Ctx, opts: &GenOpts) -> (usize, usize, Vec<(usize, Vec<usize>)>) {
    let which = if opts.unambiguous { *ctx.pick(&[0u32, 1, 2, 3, 4, 7, 8, 9, 10, 12, 14, 15, 16, 17]) } else { ctx.below(20) };
    // Terminals are written as 100 + i here and shifted below.
    let (nt, tt, rules): (usize, usize, Vec<(usize, Vec<usize>)>) = match which {
        0 => (1, 1, vec![(0, vec![0, 100]), (0, vec![100])]),
        1 => (1, 2, vec![(0, vec![100, 0]), (0, vec![101])]),
        2 => (3, 5, vec![
            (0, vec![0, 100, 1]), (0, vec![1]),
            (1, vec![1, 101, 2]), (1, vec![2]),
            (2, vec![102, 0, 103]), (2, vec![104]),
        ]),
        3 => (1, 2, vec![(0, vec![]), (0, vec![100, 0, 101, 0])]),
        4 => (2, 3, vec![(0, vec![1, 0, 101]), (0, vec![100]), (1, vec![]), (1, vec![102])]),
        5 => (1, 1, vec![(0, vec![0, 0]), (0, vec![100])]),
        6 => (1, 2, vec![(0, vec![0, 0, 0]), (0, vec![0, 0]), (0, vec![100]), (0, vec![101])]),
        7 => (1, 2, vec![(0, vec![100, 0, 100]), (0, vec![101, 0, 101]), (0, vec![])]),
        8 => {
            // Chain of first symbols, mostly short; each link alone or followed by a terminal.
            let deep = ctx.chance(1, 4);
            let k = 2 + ctx.below(if deep { 45 } else { 5 }) as usize;
            let tails = ctx.below(3);
            let mut r: Vec<(usize, Vec<usize>)> = (0..k)
                .map(|i| {
                    let tail = match tails {
                        0 => false,
                        1 => ctx.chance(1, 4),
                        _ => ctx.chance(3, 4),
                    };
                    (i, if tail { vec![i + 1, 103] } else { vec![i + 1] })
                })
                .collect();
            r.push((k, vec![k, 100]));
            r.push((k, vec![101]));
            r.push((ctx.below(k as u32) as usize, vec![102]));
            (k + 1, 4, r)
        }
        9 => (5, 4, vec![
            (0, vec![1, 2, 3, 4]),
            (1, vec![]), (1, vec![100]),
            (2, vec![]), (2, vec![101]),
            (3, vec![]), (3, vec![102]),
            (4, vec![]), (4, vec![103, 0]),
        ]),
        10 => (2, 3, vec![(0, vec![0, 1]), (0, vec![1]), (1, vec![100]), (1, vec![101, 0, 102])]),
        11 => {
            // Many completions over the same span.
            let k = 3 + ctx.below(18) as usize;
            let mut r = vec![];
            for i in 1..=k {
                r.push((0, vec![i, 101]));
                r.push((i, vec![100]));
                if i % 3 == 0 {
                    r.push((i, vec![100, 100]));
                }
            }
            (k + 1, 2, r)
        }
        12 => {
            // Many predicted items with distinct next symbols: large sets.
            let k = 4 + ctx.below(24) as usize;
            let mut r = vec![(0, vec![0, 1]), (0, vec![1])];
            for i in 0..k {
                r.push((1, vec![100 + i, 100 + (i + 1) % k, 100 + i]));
            }
            (2, k, r)
        }
        13 => (2, 4, vec![
            (0, vec![100, 0]), (0, vec![100, 0, 101, 0]), (0, vec![102]), (0, vec![103]), (1, vec![100]),
        ]),
        14 => {
            // Long rules.
            let k = 3 + ctx.below(6) as usize;
            let mut r = vec![(0, (0..k).map(|i| if i % 2 == 0 { 100 } else { 1 }).collect()), (1, vec![100]), (1, vec![])];
            r.push((0, vec![100, 0, 101]));
            (2, 2, r)
        }
        15 => (2, 2, vec![(0, vec![100, 1]), (1, vec![0]), (1, vec![101]), (0, vec![101, 101, 1, 100])]),
        16 => (3, 3, vec![
            (0, vec![1, 0]), (0, vec![]), (1, vec![100, 2, 101]), (2, vec![102, 2]), (2, vec![]),
        ]),
        17 => (3, 3, vec![
            (0, vec![0, 1, 2]), (0, vec![100]), (1, vec![101]), (1, vec![]), (2, vec![102]), (2, vec![102, 102, 1, 100]),
        ]),
        18 => (3, 2, vec![
            (0, vec![1, 0]), (0, vec![2]), (1, vec![]), (1, vec![100]), (1, vec![1, 101]), (2, vec![100]), (2, vec![2, 2]),
        ]),
        _ => (4, 3, vec![
            (0, vec![1, 2]), (0, vec![2, 3]), (1, vec![100]), (1, vec![1, 100]), (2, vec![101]), (2, vec![100, 2]),
            (3, vec![102]), (3, vec![3, 0]), (0, vec![0, 0]),
        ]),
    };
    (nt, tt, rules)
}

pub fn gen_orig(ctx: &mut Ctx, opts: &GenOpts) -> Orig {
    let s0 = ctx.span_start();
    let mut proposals: Vec<(usize, Vec<usize>)> = vec![];
    let (mut nt, mut tt);
    if opts.wide || !opts.unambiguous && !opts.small && ctx.below(3000) == 2999 {
        let k = 250 + ctx.below(60) as usize;
        ctx.probe("hundreds-of-alternatives");
        let mut rules = vec![(0, vec![1, k + 3]), (0, vec![0, k + 4]), (1, vec![k + 4])];
        for i in 0..k {
            rules.push((1, vec![2 + i]));
            rules.push((2 + i, vec![k + 2]));
        }
        let o = Orig::from_proposals(k + 2, 3, rules);
        ctx.span_end(s0);
        return o;
    }
    let templated = ctx.chance(if opts.unambiguous { 7 } else { 4 }, 10);
    if templated {
        let (n, t, rules) = template(ctx, opts);
        nt = n;
        tt = t;
        proposals.extend(rules);
        if !opts.unambiguous && ctx.chance(1, 8) {
            nt += 1;
            tt += 1;
        }
    } else {
        let medium = !opts.small && ctx.chance(1, 6);
        nt = 1 + ctx.below(if medium { 8 } else { 4 }) as usize;
        tt = 1 + ctx.below(4) as usize;
    }
    // Symbols of proposals: nonterminals < 100, terminals 100 + i; converted at the end.
    let extra = if templated {
        if opts.unambiguous {
            (ctx.below(8) / 7) as usize
        } else {
            (ctx.below(6) / 2) as usize
        }
    } else {
        nt + ctx.below(2 * nt as u32 + 1) as usize
    };
    for k in 0..extra {
        let s1 = ctx.span_start();
        let lhs = if !templated && k < nt { k } else { ctx.below(nt as u32) as usize };
        let len = ctx.weighted(&[4, 2, 5, 2, 1]);
        // Order of weights: 1, 0, 2, 3, 4 symbols.
        let len = [1, 0, 2, 3, 4][len];
        let rhs = (0..len)
            .map(|_| {
                if ctx.chance(1, 2) {
                    ctx.below(nt as u32) as usize
                } else {
                    100 + ctx.below(tt as u32) as usize
                }
            })
            .collect();
        proposals.push((lhs, rhs));
        ctx.span_end(s1);
    }
    // Padding: terminals and rules that push numbers over the sizes of blocks and bytes.
    let mut pad = 0;
    if !opts.small && ctx.chance(1, 12) {
        let base = *ctx.pick(&[0u32, 20, 24, 52, 56, 116, 120, 244, 300]);
        pad = base as usize + ctx.below(16) as usize;
    }
    let pad_rules = pad > 0 && ctx.chance(1, 2);
    let mut order: Vec<usize> = vec![];
    if pad > 0 {
        let host = ctx.below(nt as u32) as usize;
        for i in 0..pad {
            if pad_rules || opts.unambiguous {
                proposals.push((host, vec![100 + tt + i]));
            } else {
                proposals.push((host, vec![100 + tt + i, 100 + tt + (i + 1) % pad]));
            }
        }
    }
    let _ = &mut order;
    tt += pad;
    let conv = |s: usize| if s >= 100 { nt + (s - 100) } else { s };
    let proposals = proposals.into_iter().map(|(l, r)| (l, r.into_iter().map(conv).collect())).collect();
    let o = Orig::from_proposals(nt, tt, proposals);
    ctx.span_end(s0);
    o
}

// ------------------------------------------------------------------------------------------------ preparation

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Eof,
    Sof,
    Root,
    G,
    Term(usize),
    Nt(usize),
    /// Stands for positions lo..hi of an original rule.
    Inter(usize, usize, usize),
}

/// Right-hand side symbol, with the original rule and position it stands for (none for intermediates and wrapping).
#[derive(Clone, Copy, Debug)]
pub struct Slot {
    pub sym: usize,
    pub at: Option<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct BRule {
    pub lhs: usize,
    pub rhs0: Slot,
    pub rhs1: Option<Slot>,
    /// Original rule that is complete with this one.
    pub origin: Option<usize>,
    pub elim: Option<(Slot, bool)>,
}

/// What the harness knows about a prepared grammar, and the tables that the code under test reads.
#[derive(Clone, Debug)]
pub struct TestGrammar {
    pub orig: Orig,
    /// Internal symbols.
    pub kinds: Vec<Kind>,
    /// Internal number of original symbols (unused ones: None).
    pub of_orig: Vec<Option<usize>>,
    /// External number of original symbols.
    pub ext: Vec<usize>,
    /// Sorted by lhs: the index is the dot.
    pub rules: Vec<BRule>,
    pub syms: usize,
    pub gensyms: usize,
    pub by_rhs0: Vec<Vec<u32>>,
    pub ultimate: Vec<usize>,
    pub predicts: Vec<Vec<bool>>,
    pub dot_before_eof: u32,
    pub start_nullable: bool,
    /// Events of predicted symbols and of items in progress.
    pub events: [Vec<EventAndDistance>; 2],
    pub traces: [Vec<ExternalDottedRule>; 2],
    eof: usize,
    sof: usize,
    root: usize,
    start: usize,
    tables: Tables,
    /// What the bundled preparation was given.
    #[cfg(feature = "default-grammar")]
    source: Option<cfg::Cfg>,
}

#[derive(Clone, Debug)]
enum Tables {
    Own(Own),
    #[cfg(feature = "default-grammar")]
    Real(gearley_default_grammar::DefaultGrammar),
}

/// Tables made by the harness.
#[derive(Clone, Debug)]
struct Own {
    eof: Symbol,
    sof: Symbol,
    root: Symbol,
    start: Symbol,
    syms: usize,
    gensyms: usize,
    start_nullable: bool,
    dot_before_eof: u32,
    prediction: BitMatrix,
    first: BitMatrix,
    follow: BitMatrix,
    lhs: Vec<Symbol>,
    rhs1: Vec<Option<Symbol>>,
    completions: Vec<Vec<PredictionTransition>>,
    gen_completions: Vec<[Option<PredictionTransition>; 2]>,
    forest_info: ForestInfo,
    events: [Vec<EventAndDistance>; 2],
    traces: [Vec<ExternalDottedRule>; 3],
    /// External symbols are numbered from here on, in reverse.
    total: usize,
}

fn sy(i: usize) -> Symbol {
    Symbol::from_raw(i as u32)
}

#[derive(Clone, Copy)]
struct KSlot {
    k: Kind,
    at: Option<(usize, usize)>,
}

struct KRule {
    lhs: Kind,
    rhs0: KSlot,
    rhs1: Option<KSlot>,
    origin: Option<usize>,
    elim: Option<(KSlot, bool)>,
}

impl TestGrammar {
    pub fn prepare(orig: Orig, ctx: &mut Ctx) -> TestGrammar {
        if ctx.chance(1, 3) && cfg!(feature = "default-grammar") {
            #[cfg(feature = "default-grammar")]
            return Self::prepare_real(orig, ctx);
        }
        Self::prepare_own(orig, ctx)
    }

    /// The bundled preparation and its tables.
    #[cfg(feature = "default-grammar")]
    pub fn prepare_real(orig: Orig, ctx: &mut Ctx) -> TestGrammar {
        use cfg::{Cfg, Origin};
        let s0 = ctx.span_start();
        let mut order: Vec<usize> = (0..orig.syms()).collect();
        if ctx.chance(2, 3) {
            ctx.shuffle(&mut order[..]);
        }
        let spare = ctx.below(3) as usize;
        ctx.span_end(s0);
        let mut grammar = Cfg::new();
        let mut ext = vec![0; orig.syms()];
        let mut of_ext = vec![];
        for &o in &order {
            let [s] = grammar.sym();
            ext[o] = s.usize();
            of_ext.push(o);
            if spare == 1 {
                let [_] = grammar.sym();
                of_ext.push(usize::MAX);
            }
        }
        for (l, r) in &orig.rules {
            let rhs: Vec<Symbol> = r.iter().map(|&s| sy(ext[s])).collect();
            grammar.rule(sy(ext[*l])).rhs(rhs);
        }
        grammar.set_roots([sy(ext[0])]);
        let _ = cfg::observe();
        let source = grammar.clone();
        let tables = gearley_default_grammar::DefaultGrammar::from_grammar(grammar);
        let seen = cfg::observe().expect("tables: no prepared grammar");
        ctx.probe("default-grammar");
        let kinds: Vec<Kind> = seen
            .origins
            .iter()
            .map(|o| match *o {
                Origin::Root => Kind::Root,
                Origin::Wrapped => Kind::G,
                Origin::StartOfInput => Kind::Sof,
                Origin::EndOfInput => Kind::Eof,
                Origin::Part(r, lo, hi) => Kind::Inter(r as usize, lo as usize, hi as usize),
                Origin::User(s) => {
                    let o = of_ext[s.usize()];
                    if orig.is_term(o) {
                        Kind::Term(o)
                    } else {
                        Kind::Nt(o)
                    }
                }
            })
            .collect();
        let at = |p: Option<(u32, u32)>| p.map(|(r, p)| (r as usize, p as usize));
        let mut keys = vec![];
        let rules: Vec<BRule> = seen
            .rules
            .iter()
            .map(|r| {
                let h = &r.history;
                keys.push(h.dot(1));
                let slot = |i: usize| Slot { sym: r.rhs[i].usize(), at: at(h.places()[i]) };
                BRule {
                    lhs: r.lhs.usize(),
                    rhs0: slot(0),
                    rhs1: if r.rhs.len() == 2 { Some(slot(1)) } else { None },
                    origin: if h.origin().is_null() { None } else { Some(h.origin().id as usize) },
                    elim: h.nullable().map(|(s, d)| (Slot { sym: s.usize(), at: at(h.nullable_place()) }, d)),
                }
            })
            .collect();
        let mut events = [vec![(EventId::null(), MinimalDistance::null()); kinds.len()], vec![]];
        let mut traces = [vec![ExternalDottedRule::null(); kinds.len()], vec![]];
        for r in &seen.rules {
            let d = r.history.dot(0);
            events[0][r.lhs.usize()] = d.event_and_distance();
            traces[0][r.lhs.usize()] = d.trace();
        }
        for d in &keys {
            events[1].push(d.event_and_distance());
            traces[1].push(d.trace());
        }
        let syms = tables.num_syms();
        let g = Self::with_tables(orig, kinds, ext, rules, syms, events, traces, Tables::Real(tables));
        TestGrammar { source: Some(source), ..g }
    }

    /// The bundled tables, prepared once more from the same source.
    #[cfg(feature = "default-grammar")]
    pub fn prepare_again(&self) -> Option<TestGrammar> {
        let d = gearley_default_grammar::DefaultGrammar::from_grammar(self.source.clone()?);
        Some(self.with_default_grammar(d))
    }

    pub fn is_real(&self) -> bool {
        !matches!(self.tables, Tables::Own(_))
    }

    #[cfg(feature = "default-grammar")]
    pub fn default_grammar(&self) -> Option<&gearley_default_grammar::DefaultGrammar> {
        match &self.tables {
            Tables::Real(g) => Some(g),
            _ => None,
        }
    }

    /// The same grammar with other tables of the bundled kind.
    #[cfg(feature = "default-grammar")]
    pub fn with_default_grammar(&self, d: gearley_default_grammar::DefaultGrammar) -> TestGrammar {
        TestGrammar { tables: Tables::Real(d), ..self.clone() }
    }

    #[allow(clippy::too_many_arguments)]
    fn with_tables(
        orig: Orig,
        kinds: Vec<Kind>,
        ext: Vec<usize>,
        rules: Vec<BRule>,
        syms: usize,
        events: [Vec<EventAndDistance>; 2],
        traces: [Vec<ExternalDottedRule>; 2],
        tables: Tables,
    ) -> TestGrammar {
        let total = kinds.len();
        assert!(syms <= total, "tables: {syms} symbols out of {total}");
        let find = |k: Kind| kinds.iter().position(|&x| x == k).unwrap_or_else(|| panic!("tables: no symbol for {k:?}"));
        let [eof, sof, root, start] = [find(Kind::Eof), find(Kind::Sof), find(Kind::Root), find(Kind::Nt(0))];
        let by_rhs0 = by_rhs0(&rules, total);
        let ultimate = ultimate(&rules, &by_rhs0, syms);
        let prediction = prediction(&rules, &ultimate, syms);
        let mut of_orig = vec![None; orig.syms()];
        for (i, k) in kinds.iter().enumerate() {
            if let Kind::Term(o) | Kind::Nt(o) = *k {
                of_orig[o] = Some(i);
            }
        }
        let dot_before_eof = dot_before_eof(&rules, eof);
        TestGrammar {
            predicts: (0..syms).map(|s| prediction.iter_row(s).collect()).collect(),
            start_nullable: orig.nullable[0],
            orig,
            kinds,
            of_orig,
            ext,
            rules,
            syms,
            gensyms: total - syms,
            by_rhs0,
            ultimate,
            dot_before_eof,
            events,
            traces,
            eof,
            sof,
            root,
            start,
            tables,
            #[cfg(feature = "default-grammar")]
            source: None,
        }
    }

    /// The harness's own preparation, with variations that the bundled one does not make.
    pub fn prepare_own(orig: Orig, ctx: &mut Ctx) -> TestGrammar {
        let s0 = ctx.span_start();
        let okind = |s: usize| if orig.is_term(s) { Kind::Term(s) } else { Kind::Nt(s) };
        let nullable = |k: Kind| match k {
            Kind::Nt(n) => orig.nullable[n],
            Kind::Inter(r, lo, hi) => orig.rules[r].1[lo..hi].iter().all(|&s| orig.nullable[s]),
            _ => false,
        };
        // Binarize.
        let style = ctx.below(3); // left, right, mixed
        let mut bin: Vec<(Kind, KSlot, Option<KSlot>, Option<usize>)> = vec![];
        for (r, (lhs, rhs)) in orig.rules.iter().enumerate() {
            let slot = |p: usize| KSlot { k: okind(rhs[p]), at: Some((r, p)) };
            let a = Kind::Nt(*lhs);
            let n = rhs.len();
            match n {
                0 => {}
                1 => bin.push((a, slot(0), None, Some(r))),
                2 => bin.push((a, slot(0), Some(slot(1)), Some(r))),
                _ => {
                    let right = style == 1 || (style == 2 && ctx.chance(1, 2));
                    if right {
                        let j = |lo: usize| if lo == n - 1 { slot(lo) } else { KSlot { k: Kind::Inter(r, lo, n), at: None } };
                        bin.push((a, slot(0), Some(j(1)), Some(r)));
                        for lo in 1..n - 1 {
                            bin.push((Kind::Inter(r, lo, n), slot(lo), Some(j(lo + 1)), None));
                        }
                    } else {
                        let i = |hi: usize| if hi == 1 { slot(0) } else { KSlot { k: Kind::Inter(r, 0, hi), at: None } };
                        bin.push((a, i(n - 1), Some(slot(n - 1)), Some(r)));
                        for hi in 2..n {
                            bin.push((Kind::Inter(r, 0, hi), i(hi - 1), Some(slot(hi - 1)), None));
                        }
                    }
                }
            }
        }
        let plain = |k: Kind| KSlot { k, at: None };
        let start = Kind::Nt(0);
        // Wrap and eliminate empty rules.
        let mut krules: Vec<KRule> = vec![
            KRule { lhs: Kind::Root, rhs0: plain(Kind::G), rhs1: Some(plain(Kind::Eof)), origin: None, elim: None },
            KRule { lhs: Kind::G, rhs0: plain(Kind::Sof), rhs1: Some(plain(start)), origin: None, elim: None },
        ];
        if nullable(start) {
            krules.push(KRule { lhs: Kind::G, rhs0: plain(Kind::Sof), rhs1: None, origin: None, elim: Some((plain(start), true)) });
        }
        let mut nulling: Vec<[Kind; 3]> = vec![];
        for (lhs, r0, r1, origin) in bin {
            if let Some(r1) = r1 {
                if nullable(r1.k) {
                    krules.push(KRule { lhs, rhs0: r0, rhs1: None, origin, elim: Some((r1, true)) });
                }
                if nullable(r0.k) {
                    krules.push(KRule { lhs, rhs0: r1, rhs1: None, origin, elim: Some((r0, false)) });
                }
                if nullable(r0.k) && nullable(r1.k) && matches!(lhs, Kind::Inter(..)) {
                    nulling.push([lhs, r0.k, r1.k]);
                }
            }
            krules.push(KRule { lhs, rhs0: r0, rhs1: r1, origin, elim: None });
        }
        // Productive without the empty string, and reachable.
        let mut productive: std::collections::BTreeSet<Kind> = Default::default();
        let is_t = |k: Kind| matches!(k, Kind::Eof | Kind::Sof | Kind::Term(_));
        loop {
            let mut changed = false;
            for r in &krules {
                let ok = |s: &KSlot| is_t(s.k) || productive.contains(&s.k);
                if !productive.contains(&r.lhs) && ok(&r.rhs0) && r.rhs1.iter().all(ok) {
                    productive.insert(r.lhs);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        krules.retain(|r| {
            let ok = |s: &KSlot| is_t(s.k) || productive.contains(&s.k);
            ok(&r.rhs0) && r.rhs1.iter().all(ok)
        });
        let mut reach: std::collections::BTreeSet<Kind> = Default::default();
        reach.insert(Kind::Root);
        loop {
            let before = reach.len();
            for r in &krules {
                if reach.contains(&r.lhs) {
                    reach.insert(r.rhs0.k);
                    if let Some(s) = r.rhs1 {
                        reach.insert(s.k);
                    }
                }
            }
            if reach.len() == before {
                break;
            }
        }
        krules.retain(|r| reach.contains(&r.lhs));
        // Symbols in use: those above, and empty ones mentioned by eliminations.
        let mut used = reach.clone();
        used.insert(Kind::Sof);
        used.insert(start);
        for r in &krules {
            if let Some((s, _)) = r.elim {
                used.insert(s.k);
            }
        }
        loop {
            let before = used.len();
            for n in &nulling {
                if used.contains(&n[0]) {
                    used.insert(n[1]);
                    used.insert(n[2]);
                }
            }
            if used.len() == before {
                break;
            }
        }
        nulling.retain(|n| used.contains(&n[0]));
        for t in orig.nt..orig.syms() {
            used.insert(Kind::Term(t));
        }
        // Generated symbols: intermediates that stand first everywhere and have no unary rule.
        let gen_mode = ctx.below(3); // none, all, some
        let mut gens: Vec<Kind> = vec![];
        for &k in &used {
            if let Kind::Inter(..) = k {
                let first_only = krules.iter().all(|r| r.rhs1.map_or(true, |s| s.k != k));
                let reached = reach.contains(&k);
                let no_unary = krules.iter().all(|r| r.lhs != k || r.rhs1.is_some());
                let used_first = krules.iter().any(|r| r.rhs0.k == k);
                if reached && first_only && no_unary && used_first && (gen_mode == 1 || (gen_mode == 2 && ctx.chance(1, 2))) {
                    gens.push(k);
                }
            }
        }
        // Number: eof first, then a topological order of unary rules, then generated symbols.
        let mut rest: Vec<Kind> = used.iter().copied().filter(|k| *k != Kind::Eof && !gens.contains(k)).collect();
        ctx.shuffle(&mut rest[..]);
        let mut kinds: Vec<Kind> = vec![Kind::Eof];
        let mut placed: std::collections::BTreeSet<Kind> = Default::default();
        while !rest.is_empty() {
            // A symbol may be placed when every lhs of a unary rule over it is placed.
            let i = rest
                .iter()
                .position(|&k| krules.iter().all(|r| r.rhs1.is_some() || r.rhs0.k != k || placed.contains(&r.lhs)))
                .expect("unit cycle");
            let k = rest.remove(i);
            placed.insert(k);
            kinds.push(k);
        }
        let syms = kinds.len();
        ctx.shuffle(&mut gens[..]);
        kinds.extend(gens.iter().copied());
        // Generated symbols are ordered so that those completed from others come first: not needed by the contract.
        let num: BTreeMap<Kind, usize> = kinds.iter().enumerate().map(|(i, &k)| (k, i)).collect();
        let slot = |s: KSlot| Slot { sym: num[&s.k], at: s.at };
        let mut rules: Vec<BRule> = krules
            .iter()
            .map(|r| BRule {
                lhs: num[&r.lhs],
                rhs0: slot(r.rhs0),
                rhs1: r.rhs1.map(slot),
                origin: r.origin,
                elim: r.elim.map(|(s, d)| (slot(s), d)),
            })
            .collect();
        if ctx.chance(1, 3) {
            ctx.shuffle(&mut rules[..]);
        }
        rules.sort_by_key(|r| r.lhs);
        ctx.span_end(s0);
        let total = kinds.len();
        let by_rhs0 = by_rhs0(&rules, total);
        let ultimate = ultimate(&rules, &by_rhs0, syms);
        let prediction = prediction(&rules, &ultimate, syms);
        // FIRST and FOLLOW.
        let is_term: Vec<bool> = kinds.iter().map(|&k| is_t(k)).collect();
        let mut first_all = vec![vec![false; syms]; total];
        for s in 0..total {
            if s < syms {
                first_all[s][s] = true;
            }
        }
        loop {
            let mut changed = false;
            for r in &rules {
                for t in 0..syms {
                    if is_term[t] && first_all[r.rhs0.sym][t] && !first_all[r.lhs][t] {
                        first_all[r.lhs][t] = true;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut follow_all = vec![vec![false; syms]; total];
        loop {
            let mut changed = false;
            for r in &rules {
                let last = r.rhs1.map_or(r.rhs0.sym, |s| s.sym);
                for t in 0..syms {
                    if follow_all[r.lhs][t] && !follow_all[last][t] {
                        follow_all[last][t] = true;
                        changed = true;
                    }
                    if let Some(s) = r.rhs1 {
                        if first_all[s.sym][t] && !follow_all[r.rhs0.sym][t] {
                            follow_all[r.rhs0.sym][t] = true;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut first = BitMatrix::new(syms, syms);
        let mut follow = BitMatrix::new(syms, syms);
        for s in 0..syms {
            for t in 0..syms {
                first.set(s, t, first_all[s][t]);
                follow.set(s, t, follow_all[s][t]);
            }
        }
        // Completion tables: binary first.
        let mut completions = vec![vec![]; syms];
        let mut gen_completions = vec![[None; 2]; total - syms];
        for unary in [false, true] {
            for (d, r) in rules.iter().enumerate() {
                if r.rhs1.is_none() == unary {
                    let t = PredictionTransition { symbol: sy(ultimate[r.lhs]), dot: d as u32, is_unary: unary };
                    if r.rhs0.sym < syms {
                        completions[r.rhs0.sym].push(t);
                    } else {
                        let place: &mut Option<PredictionTransition> = &mut gen_completions[r.rhs0.sym - syms][unary as usize];
                        assert!(place.is_none(), "harness: generated symbol used twice");
                        *place = Some(t);
                    }
                }
            }
        }
        let nulling_intermediate_rules: Vec<NullingIntermediateRule> =
            nulling.iter().map(|n| [sy(num[&n[0]]), sy(num[&n[1]]), sy(num[&n[2]])]).collect();
        let forest_info = ForestInfo {
            eval: rules.iter().map(|r| r.origin.map_or(ExternalOrigin::null(), |id| ExternalOrigin { id: id as u32 })).collect(),
            nulling_intermediate_rules,
            nulling_eliminated: rules.iter().map(|r| r.elim.map(|(s, d)| (sy(s.sym), d))).collect(),
            sof: sy(num[&Kind::Sof]),
            eof: sy(0),
            start: sy(num[&start]),
        };
        let ev = |id: u32| (EventId { id }, MinimalDistance { distance: (id * 7) % 13 });
        let events =
            [(0..total as u32 + 1).map(|s| ev(s)).collect::<Vec<_>>(), (0..rules.len() as u32).map(|d| ev(100_000 + d)).collect()];
        let tr = |n: usize, pos: u32| (0..n as u32).map(|id| ExternalDottedRule { id, pos }).collect::<Vec<_>>();
        let traces = [tr(total + 1, 100), tr(rules.len(), 200), tr(rules.len(), 300)];
        let own = Own {
            eof: sy(0),
            sof: sy(num[&Kind::Sof]),
            root: sy(num[&Kind::Root]),
            start: sy(num[&start]),
            syms,
            gensyms: total - syms,
            start_nullable: orig.nullable[0],
            dot_before_eof: dot_before_eof(&rules, 0),
            prediction,
            first,
            follow,
            lhs: rules.iter().map(|r| sy(r.lhs)).collect(),
            rhs1: rules.iter().map(|r| r.rhs1.map(|s| sy(s.sym))).collect(),
            completions,
            gen_completions,
            forest_info,
            events: events.clone(),
            traces: traces.clone(),
            total,
        };
        let ext = (0..orig.syms()).map(|s| num.get(&okind(s)).map_or(2 * total + s, |&i| own.to_external(sy(i)).usize())).collect();
        let [t0, t1, _] = traces;
        Self::with_tables(orig, kinds, ext, rules, syms, events, [t0, t1], Tables::Own(own))
    }

    /// Internal terminals that stand for terminals of the original grammar.
    pub fn terminals(&self) -> Vec<usize> {
        (1..self.syms).filter(|&s| matches!(self.kinds[s], Kind::Term(_))).collect()
    }
    /// All that can be offered as a token.
    pub fn tokens(&self) -> Vec<usize> {
        let mut v = self.terminals();
        v.extend([self.eof, self.sof]);
        v
    }
    pub fn term_of(&self, orig: usize) -> usize {
        self.of_orig[orig].expect("terminal is numbered")
    }
    pub fn orig_of(&self, sym: usize) -> usize {
        match self.kinds[sym] {
            Kind::Term(t) => t,
            Kind::Nt(n) => n,
            _ => usize::MAX,
        }
    }
    pub fn sof_num(&self) -> usize {
        self.sof
    }
    pub fn eof_num(&self) -> usize {
        self.eof
    }
    pub fn start_num(&self) -> usize {
        self.start
    }
    pub fn root_num(&self) -> usize {
        self.root
    }
    pub fn describe(&self) -> String {
        let o = &self.orig;
        let name = |s: usize| if o.is_term(s) { format!("t{}", self.of_orig[s].unwrap_or(9999)) } else { format!("N{s}") };
        let mut v = vec![];
        for (l, r) in &o.rules {
            if v.len() > 40 {
                v.push("...".into());
                break;
            }
            v.push(format!("{}={}", name(*l), r.iter().map(|&s| name(s)).collect::<Vec<_>>().join(".")));
        }
        format!("{} | syms {} gensyms {}", v.join(" ; "), self.syms, self.gensyms)
    }
}

fn by_rhs0(rules: &[BRule], total: usize) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]; total];
    for (d, r) in rules.iter().enumerate() {
        v[r.rhs0.sym].push(d as u32);
    }
    v
}

/// The symbol under which a generated symbol is predicted.
fn ultimate(rules: &[BRule], by_rhs0: &[Vec<u32>], syms: usize) -> Vec<usize> {
    (0..by_rhs0.len())
        .map(|s| {
            let mut s = s;
            let mut steps = 0;
            while s >= syms {
                let d = by_rhs0[s].first().unwrap_or_else(|| panic!("tables: generated symbol {s} begins no rule"));
                s = rules[*d as usize].lhs;
                steps += 1;
                assert!(steps <= rules.len(), "tables: generated symbols depend on each other");
            }
            s
        })
        .collect()
}

fn prediction(rules: &[BRule], ultimate: &[usize], syms: usize) -> BitMatrix {
    let mut prediction = BitMatrix::new(syms, syms);
    for r in rules {
        if r.rhs0.sym < syms {
            prediction.set(ultimate[r.lhs], r.rhs0.sym, true);
        }
    }
    prediction.transitive_closure();
    prediction.reflexive_closure();
    prediction
}

fn dot_before_eof(rules: &[BRule], eof: usize) -> u32 {
    rules.iter().position(|r| r.rhs1.map_or(false, |s| s.sym == eof)).expect("tables: no rule ends in the end of input") as u32
}

impl Grammar for Own {
    fn sof(&self) -> Symbol {
        self.sof
    }
    fn eof(&self) -> Symbol {
        self.eof
    }
    fn lhs_lr_set(&self, symbol: Symbol) -> &BitSlice {
        &self.follow[symbol.usize()]
    }
    fn lookahead_set(&self, dot: u32) -> &BitSlice {
        match self.rhs1[dot as usize] {
            Some(s) => &self.first[s.usize()],
            None => &self.follow[self.lhs[dot as usize].usize()],
        }
    }
    fn rhs1_or_lhs(&self, dot: u32) -> Symbol {
        self.rhs1[dot as usize].unwrap_or_else(|| self.get_lhs(dot))
    }
    fn prediction_row(&self, sym: Symbol) -> &BitSlice {
        &self.prediction[sym.usize()]
    }
    fn num_syms(&self) -> usize {
        self.syms
    }
    fn num_gensyms(&self) -> usize {
        self.gensyms
    }
    fn num_rules(&self) -> usize {
        self.lhs.len()
    }
    fn start_sym(&self) -> Symbol {
        self.root
    }
    fn externalized_start_sym(&self) -> Symbol {
        self.to_external(self.start)
    }
    fn has_trivial_derivation(&self) -> bool {
        self.start_nullable
    }
    fn nulling(&self, pos: u32) -> NullingEliminated {
        self.forest_info.nulling_eliminated[pos as usize]
    }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
        (&self.events[0], &self.events[1])
    }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] {
        [&self.traces[0], &self.traces[1], &self.traces[2]]
    }
    fn get_rhs1(&self, dot: u32) -> Option<Symbol> {
        self.rhs1[dot as usize]
    }
    fn rhs1(&self) -> &[Option<Symbol>] {
        &self.rhs1
    }
    fn get_lhs(&self, dot: u32) -> Symbol {
        self.lhs[dot as usize]
    }
    fn external_origin(&self, dot: u32) -> ExternalOrigin {
        self.forest_info.eval[dot as usize]
    }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] {
        &self.forest_info.nulling_intermediate_rules
    }
    fn completions(&self, sym: Symbol) -> &[PredictionTransition] {
        &self.completions[sym.usize()]
    }
    fn gen_completion(&self, sym: Symbol) -> [Option<PredictionTransition>; 2] {
        self.gen_completions[sym.usize() - self.syms]
    }
    fn to_internal(&self, symbol: Symbol) -> Option<Symbol> {
        let i = symbol.usize().wrapping_sub(self.total);
        if i < self.total {
            Some(sy(self.total - 1 - i))
        } else {
            None
        }
    }
    fn to_external(&self, symbol: Symbol) -> Symbol {
        sy(2 * self.total - 1 - symbol.usize())
    }
    fn dot_before_eof(&self) -> u32 {
        self.dot_before_eof
    }
    fn useless_symbol(&self) -> Symbol {
        self.root
    }
    fn forest_info(&self) -> ForestInfo {
        self.forest_info.clone()
    }
}

macro_rules! tables {
    ($self:ident, $t:ident => $e:expr) => {
        match &$self.tables {
            Tables::Own($t) => $e,
            #[cfg(feature = "default-grammar")]
            Tables::Real($t) => $e,
        }
    };
}

impl Grammar for TestGrammar {
    #[inline]
    fn sof(&self) -> Symbol {
        tables!(self, t => t.sof())
    }
    #[inline]
    fn eof(&self) -> Symbol {
        tables!(self, t => t.eof())
    }
    #[inline]
    fn lhs_lr_set(&self, symbol: Symbol) -> &BitSlice {
        tables!(self, t => t.lhs_lr_set(symbol))
    }
    #[inline]
    fn lookahead_set(&self, dot: u32) -> &BitSlice {
        tables!(self, t => t.lookahead_set(dot))
    }
    #[inline]
    fn rhs1_or_lhs(&self, dot: u32) -> Symbol {
        tables!(self, t => t.rhs1_or_lhs(dot))
    }
    #[inline]
    fn prediction_row(&self, sym: Symbol) -> &BitSlice {
        tables!(self, t => t.prediction_row(sym))
    }
    #[inline]
    fn num_syms(&self) -> usize {
        tables!(self, t => t.num_syms())
    }
    #[inline]
    fn num_gensyms(&self) -> usize {
        tables!(self, t => t.num_gensyms())
    }
    #[inline]
    fn num_rules(&self) -> usize {
        tables!(self, t => t.num_rules())
    }
    #[inline]
    fn start_sym(&self) -> Symbol {
        tables!(self, t => t.start_sym())
    }
    #[inline]
    fn externalized_start_sym(&self) -> Symbol {
        tables!(self, t => t.externalized_start_sym())
    }
    #[inline]
    fn has_trivial_derivation(&self) -> bool {
        tables!(self, t => t.has_trivial_derivation())
    }
    #[inline]
    fn nulling(&self, pos: u32) -> NullingEliminated {
        tables!(self, t => t.nulling(pos))
    }
    #[inline]
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
        tables!(self, t => t.events())
    }
    #[inline]
    fn trace(&self) -> [&[ExternalDottedRule]; 3] {
        tables!(self, t => t.trace())
    }
    #[inline]
    fn get_rhs1(&self, dot: u32) -> Option<Symbol> {
        tables!(self, t => t.get_rhs1(dot))
    }
    #[inline]
    fn rhs1(&self) -> &[Option<Symbol>] {
        tables!(self, t => t.rhs1())
    }
    #[inline]
    fn get_lhs(&self, dot: u32) -> Symbol {
        tables!(self, t => t.get_lhs(dot))
    }
    #[inline]
    fn external_origin(&self, dot: u32) -> ExternalOrigin {
        tables!(self, t => t.external_origin(dot))
    }
    #[inline]
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] {
        tables!(self, t => t.eliminated_nulling_intermediate())
    }
    #[inline]
    fn completions(&self, sym: Symbol) -> &[PredictionTransition] {
        tables!(self, t => t.completions(sym))
    }
    #[inline]
    fn gen_completion(&self, sym: Symbol) -> [Option<PredictionTransition>; 2] {
        tables!(self, t => t.gen_completion(sym))
    }
    #[inline]
    fn to_internal(&self, symbol: Symbol) -> Option<Symbol> {
        tables!(self, t => t.to_internal(symbol))
    }
    #[inline]
    fn to_external(&self, symbol: Symbol) -> Symbol {
        tables!(self, t => t.to_external(symbol))
    }
    #[inline]
    fn dot_before_eof(&self) -> u32 {
        tables!(self, t => t.dot_before_eof())
    }
    #[inline]
    fn useless_symbol(&self) -> Symbol {
        tables!(self, t => t.useless_symbol())
    }
    #[inline]
    fn forest_info(&self) -> ForestInfo {
        tables!(self, t => t.forest_info())
    }
}
