//! One recognizer session as the simulator drives it: single operations and what can be observed after each.

use super::forests::*;
use super::gearley_recognizer::lookahead::Lookahead;
use super::gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use super::gearley_recognizer::Recognizer;
use super::gram::*;
use super::refs::Tok;
pub use super::ops::*;
use gearley_grammar::Grammar;
use simcore::*;

pub type Rz<'g, P = DefaultPerfHint> = Recognizer<&'g TestGrammar, SimForest, P>;

pub struct Sess<'g, P: PerfHint = DefaultPerfHint> {
    pub g: &'g TestGrammar,
    pub rec: Rz<'g, P>,
    pub forest: SimForest,
    /// Positions of the retained sets, the last closed one last.
    pub map: Vec<usize>,
    pub pos: usize,
    pub open: bool,
    pub offered: Vec<Offered>,
}

impl<'g> Sess<'g> {
    pub fn new(g: &'g TestGrammar, forest: SimForest) -> Self {
        Self::with_limit(g, forest, 8192)
    }
    /// With a memory limit, from which the recognizer derives its initial capacities.
    pub fn with_limit(g: &'g TestGrammar, forest: SimForest, limit: usize) -> Self {
        if limit == 8192 {
            forest.new_session();
            let rec = Recognizer::with_forest(g, forest.clone());
            return Sess { g, rec, forest, map: vec![0], pos: 0, open: false, offered: vec![] };
        }
        Self::with_policy(g, forest, DefaultPerfHint::new(limit))
    }
}

impl<'g, P: PerfHint> Sess<'g, P> {
    pub fn with_policy(g: &'g TestGrammar, forest: SimForest, policy: P) -> Self {
        forest.new_session();
        let rec = Recognizer::with_forest_and_policy(g, forest.clone(), policy);
        Sess { g, rec, forest, map: vec![0], pos: 0, open: false, offered: vec![] }
    }
    pub fn reset(&mut self) {
        self.rec.reset();
        self.forest.new_session();
        self.map = vec![0];
        self.pos = 0;
        self.open = false;
        self.offered.clear();
    }
    pub fn begin(&mut self) {
        if !self.open {
            self.rec.begin_earleme();
            self.open = true;
            self.forest.set_position(&self.map, self.pos + 1);
        }
    }
    pub fn scan(&mut self, t: &Tok) {
        self.rec.scan(sym(t.sym), t.val);
    }
    /// Bookkeeping after a position was closed.
    pub fn closed(&mut self) {
        self.pos += 1;
        self.map.truncate(self.rec.earleme().wrapping_add(1));
        self.map.push(self.pos);
        self.open = false;
    }
    pub fn end(&mut self, how: How) -> bool {
        self.offered.clear();
        match how {
            How::Auto => {
                if !self.rec.end_earleme() {
                    return false;
                }
            }
            How::AllSums => {
                if self.rec.is_exhausted() {
                    return false;
                }
                self.rec.complete_all_sums_entirely();
                self.rec.advance_after_completion();
            }
            How::Manual(style) => {
                if self.rec.is_exhausted() {
                    return false;
                }
                let mut style = style;
                let forest = self.forest.clone();
                while let Some(mut group) = self.rec.next_sum() {
                    let whole = style != 0 && splitmix(&mut style) % 3 == 0;
                    let origin = group.origin();
                    let s = group.symbol().usize();
                    let mut off = Offered { sym: s, origin: self.map.get(origin as usize).copied().unwrap_or(usize::MAX), alts: vec![] };
                    if whole {
                        group.complete_entire_sum();
                    } else {
                        while let Some(item) = group.next_summand() {
                            let split = match forest.rec() {
                                Some(mut r) => r.item_value(item.dot, item.node.0).and_then(|v| v.2),
                                None => None,
                            };
                            off.alts.push((item.dot, split));
                            group.push_summand(item);
                        }
                        group.complete_sum();
                    }
                    self.offered.push(off);
                }
                self.rec.advance_after_completion();
            }
        }
        self.closed();
        true
    }
    pub fn finished(&self, unamb: bool) -> Option<String> {
        self.rec.finished_node().map(|n| self.forest.describe(n.0, unamb))
    }
    pub fn progress(&self) -> Progress {
        let ext = |o: usize| self.map.get(o).copied().unwrap_or(usize::MAX);
        let mut p = Progress {
            pred: self.rec.predicted_symbols().map(|s| s.usize() as u32).collect(),
            medial: self.rec.medial_items().map(|i| (i.dot, ext(i.origin as usize))).collect(),
            expected: self.rec.expected_terminals().map(|s| s.usize() as u32).collect(),
            trace: self.rec.trace().map(|(r, o)| (r.id, r.pos, ext(o))).collect(),
            events: self.rec.events().map(|(e, d)| (e.id, d.distance)).collect(),
            distances: self.rec.minimal_distances().collect(),
        };
        p.medial.sort();
        p.expected.sort();
        p.trace.sort();
        p.events.sort();
        p.distances.sort();
        p
    }
    pub fn query(&self, which: u32) {
        if which & 1 != 0 {
            let _ = self.rec.is_exhausted();
            if self.rec.earleme() != usize::MAX {
                let _ = self.rec.is_finished();
            }
        }
        if self.rec.earleme() == usize::MAX {
            return;
        }
        if which & 2 != 0 {
            let _ = self.rec.predicted_symbols().count();
        }
        if which & 4 != 0 {
            let _ = self.rec.medial_items().count();
            let _ = self.rec.expected_terminals().count();
        }
        if which & 8 != 0 {
            let _ = self.rec.trace().count();
            let _ = self.rec.events().count();
            let _ = self.rec.minimal_distances().count();
        }
        if which & 16 != 0 {
            let _ = self.rec.finished_node();
            let _ = self.rec.grammar().num_syms();
        }
    }
    pub fn exec(&mut self, op: &Op) -> Vec<Obs> {
        match op {
            Op::Begin => {
                self.begin();
                vec![Obs::Progress(self.progress())]
            }
            Op::Scan(t) => {
                self.scan(t);
                vec![]
            }
            Op::Hint(s) => {
                self.rec.lookahead().set_hint(sym(*s));
                vec![]
            }
            Op::ClearHint => {
                self.rec.lookahead().clear_hint();
                vec![]
            }
            Op::End { how, unamb } => {
                let ok = self.end(*how);
                let mut v = vec![];
                if let How::Manual(_) = how {
                    let mut o = self.offered.clone();
                    for f in &mut o {
                        f.alts.sort();
                    }
                    o.sort();
                    v.push(Obs::Offered(o));
                }
                let fin = if ok { self.finished(*unamb) } else { None };
                v.push(Obs::End { ok, fin });
                v
            }
            Op::Query(w) => {
                self.query(*w);
                vec![]
            }
        }
    }
    /// Executes a whole list of operations; stops after a closing with another verdict than the plan says.
    pub fn exec_all(&mut self, ops: &[(Op, Option<bool>)]) -> Vec<Obs> {
        let mut v = vec![];
        for (op, expect) in ops {
            let o = self.exec(op);
            let stop = match (expect, o.last()) {
                (Some(e), Some(Obs::End { ok, .. })) => e != ok,
                _ => false,
            };
            v.extend(o);
            if stop {
                break;
            }
        }
        v
    }
}

// ------------------------------------------------------------------------------------------------------- machine

/// Executes a script one step at a time.
pub struct Machine<'g, P: PerfHint = DefaultPerfHint> {
    pub s: Sess<'g, P>,
    skip: bool,
    make: Make<'g, P>,
}

/// Makes the session, and makes it again when the recognizer is replaced.
pub type Make<'g, P> = Box<dyn Fn(SimForest) -> Sess<'g, P> + 'g>;

impl<'g> Machine<'g> {
    pub fn new(g: &'g TestGrammar, forest: SimForest, limit: usize) -> Self {
        Self::made(forest, Box::new(move |f| Sess::with_limit(g, f, limit)))
    }
}

impl<'g, P: PerfHint> Machine<'g, P> {
    pub fn made(forest: SimForest, make: Make<'g, P>) -> Self {
        Machine { s: make(forest), skip: false, make }
    }
    fn raw(&mut self, x: &X) -> Vec<XObs> {
        let s = &mut self.s;
        match x {
            X::Op(op) => {
                // Under a wrong hint a position may have closed earlier than planned.
                if matches!(op, Op::Scan(_) | Op::End { .. }) {
                    s.begin();
                }
                s.exec(op).into_iter().map(XObs::Obs).collect()
            }
            X::Partial { groups, pops, pushes, sum } => {
                s.begin();
                if s.rec.is_exhausted() {
                    return vec![];
                }
                for _ in 0..*groups {
                    if let Some(mut g) = s.rec.next_sum() {
                        g.complete_entire_sum();
                    }
                }
                if let Some(mut g) = s.rec.next_sum() {
                    let mut pushed = 0;
                    for k in 0..*pops {
                        if let Some(it) = g.next_summand() {
                            if k < *pushes {
                                g.push_summand(it);
                                pushed += 1;
                            }
                        }
                    }
                    if *sum && pushed > 0 {
                        g.complete_sum();
                    }
                }
                vec![]
            }
            X::NoAdvance => {
                s.begin();
                if !s.rec.is_exhausted() {
                    s.rec.complete_all_sums_entirely();
                }
                vec![]
            }
            X::Reset => {
                s.forest.fuse.disarm();
                s.reset();
                vec![XObs::Started(s.rec.is_finished())]
            }
            X::Recreate => {
                s.forest.fuse.disarm();
                let f = s.forest.clone();
                *s = (self.make)(f);
                vec![XObs::Started(s.rec.is_finished())]
            }
            X::Arm(n, after) => {
                s.forest.fuse.arm(*n, *after);
                vec![]
            }
        }
    }
    /// One step; an error is a panic that nobody injected.
    pub fn step(&mut self, x: &X) -> Result<Vec<XObs>, String> {
        if self.skip && !matches!(x, X::Reset | X::Recreate) {
            return Ok(vec![]);
        }
        self.skip = false;
        match guard(|| self.raw(x)) {
            Outcome::Done(v) => Ok(v),
            Outcome::Injected(k) => {
                self.skip = true;
                Ok(vec![XObs::Failed(k)])
            }
            Outcome::Panicked(m) => Err(m),
        }
    }
}
