//! Reference models: a naive Earley recognizer on the user's grammar, the fingerprint of the set of all parse
//! trees of the user's grammar, and a naive chart on the prepared grammar.
//!
//! A set of trees is fingerprinted by its number of trees and a sum over trees of a product over tree positions,
//! modulo a 61-bit prime, which can be computed without enumerating the trees.

use super::gram::*;
use std::collections::HashMap;
use std::sync::Arc;

pub const PRIME: u64 = (1 << 61) - 1;

pub fn mul(a: u64, b: u64) -> u64 {
    let x = a as u128 * b as u128;
    let r = (x & PRIME as u128) as u64 + (x >> 61) as u64;
    if r >= PRIME {
        r - PRIME
    } else {
        r
    }
}
pub fn add(a: u64, b: u64) -> u64 {
    let r = a + b;
    if r >= PRIME {
        r - PRIME
    } else {
        r
    }
}
pub fn mix(tag: u64, a: u64, b: u64) -> u64 {
    let mut s = tag.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ a.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ b.wrapping_mul(0x8CB9_2BA7_2F3D_8DD7);
    simcore::splitmix(&mut s) % PRIME
}
pub fn w_leaf(sym: usize, value: u32) -> u64 {
    mix(1, sym as u64, value as u64)
}
pub fn w_null(sym: usize) -> u64 {
    mix(2, sym as u64, 0)
}
pub fn w_rule(rule: usize) -> u64 {
    mix(3, rule as u64, 0)
}
pub fn w_pos(rule: usize, pos: usize) -> u64 {
    mix(4, rule as u64, pos as u64)
}

/// Fingerprint of a multiset of trees: sum of tree hashes, number of trees modulo the prime, and the tree's text if
/// there is exactly one (when asked for).
#[derive(Clone, Debug, Default)]
pub struct P {
    pub h: u64,
    pub n: u64,
    /// Number of trees: none, one or many. (Modulo the prime, 2^61 trees count as one.)
    pub c: u8,
    pub t: Option<Arc<str>>,
}

impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.h == o.h && self.n == o.n && self.c == o.c
    }
}

impl P {
    pub fn plus(&self, o: &P) -> P {
        let t = match (self.c, o.c) {
            (0, _) => o.t.clone(),
            (_, 0) => self.t.clone(),
            _ => None,
        };
        P { h: add(self.h, o.h), n: add(self.n, o.n), c: (self.c + o.c).min(2), t }
    }
    /// As a factor at a position of an original rule.
    pub fn factor(&self, at: Option<(usize, usize)>) -> P {
        match at {
            Some((r, p)) => P { h: add(self.h, mul(self.n, w_pos(r, p))), n: self.n, c: self.c, t: self.t.clone() },
            None => self.clone(),
        }
    }
    pub fn times(&self, o: &P) -> P {
        let t = match (&self.t, &o.t) {
            (Some(a), Some(b)) => Some(if a.is_empty() {
                b.clone()
            } else if b.is_empty() {
                a.clone()
            } else {
                format!("{a},{b}").into()
            }),
            _ => None,
        };
        P { h: mul(self.h, o.h), n: mul(self.n, o.n), c: (self.c * o.c).min(2), t }
    }
    pub fn one() -> P {
        P { h: 1, n: 1, c: 1, t: Some("".into()) }
    }
    pub fn wrap(&self, rule: usize) -> P {
        P { h: mul(self.h, w_rule(rule)), n: self.n, c: self.c, t: self.t.as_ref().map(|t| format!("r{rule}({t})").into()) }
    }
    pub fn show(&self) -> String {
        format!("{:x}/{}", self.h, self.n)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    /// Internal terminal number.
    pub sym: usize,
    pub val: u32,
}

pub fn p_leaf(t: &Tok, texts: bool) -> P {
    P {
        h: w_leaf(t.sym, t.val),
        n: 1,
        c: 1,
        t: if texts { Some(format!("t{}:{}", t.sym, t.val).into()) } else { None },
    }
}
thread_local! {
    /// Makes the action of some empty symbols give several values or none; 0: one value each.
    static NULLS: std::cell::Cell<(u64, bool)> = const { std::cell::Cell::new((0, false)) };
}
pub fn set_nulls(seed: u64, none: bool) {
    NULLS.with(|n| n.set((seed, none)));
}
/// The values of an empty symbol.
pub fn null_values(sym: usize) -> Vec<u64> {
    let (seed, none) = NULLS.with(|n| n.get());
    let mut h = seed ^ (sym as u64) << 20;
    let count = match simcore::splitmix(&mut h) % 6 {
        _ if seed == 0 => 1,
        0 if none => 0,
        1 => 2,
        2 => 3,
        _ => 1,
    };
    (0..count).map(|i| if i == 0 { w_null(sym) } else { simcore::splitmix(&mut h) >> 4 }).collect()
}
pub fn p_null(sym: usize, texts: bool) -> P {
    let v = null_values(sym);
    if v.len() == 1 {
        return P { h: w_null(sym), n: 1, c: 1, t: if texts { Some(format!("n{sym}").into()) } else { None } };
    }
    // The text of a value cannot be told; it is there even without a value.
    P { h: v.iter().fold(0, |a, &b| add(a, b)), n: v.len() as u64, c: 2, t: None }
}

// ------------------------------------------------------------------------------- recognizer on the user's grammar

/// Naive Earley recognizer on the original grammar, one set per position.
#[derive(Clone)]
pub struct OrigRef<'g> {
    o: &'g Orig,
    by_lhs: Vec<Vec<usize>>,
    sets: Vec<OSet>,
}

#[derive(Clone)]
struct OSet {
    items: Vec<(usize, usize, usize)>, // rule, dot, origin
    seen: std::collections::HashSet<(usize, usize, usize)>,
    by_next: HashMap<usize, Vec<usize>>,
}

impl<'g> OrigRef<'g> {
    pub fn new(o: &'g Orig) -> Self {
        let mut by_lhs = vec![vec![]; o.nt];
        for (i, r) in o.rules.iter().enumerate() {
            by_lhs[r.0].push(i);
        }
        let mut r = OrigRef { o, by_lhs, sets: vec![] };
        let init: Vec<_> = r.by_lhs[0].iter().map(|&i| (i, 0, 0)).collect();
        r.close(init);
        r
    }
    fn close(&mut self, init: Vec<(usize, usize, usize)>) {
        let j = self.sets.len();
        let mut set = OSet { items: vec![], seen: Default::default(), by_next: HashMap::new() };
        let mut work = init;
        while let Some(it) = work.pop() {
            if !set.seen.insert(it) {
                continue;
            }
            let (rule, dot, origin) = it;
            let idx = set.items.len();
            set.items.push(it);
            let (lhs, rhs) = &self.o.rules[rule];
            if let Some(&next) = rhs.get(dot) {
                set.by_next.entry(next).or_default().push(idx);
                if !self.o.is_term(next) {
                    for &q in &self.by_lhs[next] {
                        work.push((q, 0, j));
                    }
                    if self.o.nullable[next] {
                        work.push((rule, dot + 1, origin));
                    }
                }
            } else if origin != j {
                if let Some(v) = self.sets[origin].by_next.get(lhs) {
                    for &k in v {
                        let (r2, d2, o2) = self.sets[origin].items[k];
                        work.push((r2, d2 + 1, o2));
                    }
                }
            }
        }
        self.sets.push(set);
    }
    pub fn pos(&self) -> usize {
        self.sets.len() - 1
    }
    /// Would any of these original terminals be acceptable now?
    pub fn accepts(&self, t: usize) -> bool {
        self.sets.last().unwrap().by_next.contains_key(&t)
    }
    pub fn step(&mut self, toks: &[usize]) -> bool {
        let last = self.sets.last().unwrap();
        let mut init = vec![];
        for &t in toks {
            if let Some(v) = last.by_next.get(&t) {
                for &k in v {
                    let (r, d, o) = last.items[k];
                    init.push((r, d + 1, o));
                }
            }
        }
        if init.is_empty() {
            return false;
        }
        self.close(init);
        true
    }
    pub fn finished(&self) -> bool {
        if self.pos() == 0 {
            return self.o.nullable[0];
        }
        let s = self.sets.last().unwrap();
        self.by_lhs[0].iter().any(|&r| s.seen.contains(&(r, self.o.rules[r].1.len(), 0)))
    }
}

// ------------------------------------------------------------------------------------ trees of the user's grammar

/// Fingerprint of all parse trees of the tokens, straight from the definition on the original grammar.
pub struct Trees<'g> {
    g: &'g TestGrammar,
    lattice: &'g [Vec<Tok>],
    texts: bool,
    syms: HashMap<(usize, usize, usize), P>,
    seqs: HashMap<(usize, usize, usize, usize), P>,
}

impl<'g> Trees<'g> {
    pub fn new(g: &'g TestGrammar, lattice: &'g [Vec<Tok>], texts: bool) -> Self {
        Trees { g, lattice, texts, syms: HashMap::new(), seqs: HashMap::new() }
    }
    pub fn whole(&mut self) -> P {
        let n = self.lattice.len();
        self.upto(n)
    }
    /// Trees of the first n positions.
    pub fn upto(&mut self, n: usize) -> P {
        self.sym(0, 0, n)
    }
    fn sym(&mut self, s: usize, i: usize, j: usize) -> P {
        let o = &self.g.orig;
        if o.is_term(s) {
            if j != i + 1 {
                return P::default();
            }
            let num = self.g.term_of(s);
            let mut p = P::default();
            for t in &self.lattice[i] {
                if t.sym == num {
                    p = p.plus(&p_leaf(t, self.texts));
                }
            }
            return p;
        }
        if i == j {
            return if o.nullable[s] { p_null(self.g.of_orig[s].unwrap_or(usize::MAX), self.texts) } else { P::default() };
        }
        if let Some(p) = self.syms.get(&(s, i, j)) {
            return p.clone();
        }
        let mut p = P::default();
        for r in 0..o.rules.len() {
            if o.rules[r].0 == s {
                p = p.plus(&self.seq(r, 0, i, j).wrap(r));
            }
        }
        self.syms.insert((s, i, j), p.clone());
        p
    }
    fn seq(&mut self, r: usize, p: usize, i: usize, j: usize) -> P {
        let rhs = &self.g.orig.rules[r].1;
        if p == rhs.len() {
            return if i == j { P::one() } else { P::default() };
        }
        if let Some(v) = self.seqs.get(&(r, p, i, j)) {
            return v.clone();
        }
        let mut sum = P::default();
        let last = p + 1 == rhs.len();
        let from = if last { j } else { i };
        let empty = |s: usize| !self.g.orig.is_term(s) && self.g.orig.nullable[s];
        let rest_empty = rhs[p + 1..].iter().all(|&s| empty(s));
        for k in from..=j {
            // Spans that cannot be must not be asked for, or left recursion never ends.
            if (k == i && !empty(rhs[p])) || (k == j && !rest_empty) {
                continue;
            }
            let a = self.sym(rhs[p], i, k);
            if a.c == 0 {
                continue;
            }
            let b = self.seq(r, p + 1, k, j);
            if b.c == 0 {
                continue;
            }
            sum = sum.plus(&a.factor(Some((r, p))).times(&b));
        }
        self.seqs.insert((r, p, i, j), sum.clone());
        sum
    }
}

// ---------------------------------------------------------------------------------- chart of the prepared grammar

/// One alternative way in which a fragment was completed.
#[derive(Clone, Debug, PartialEq)]
pub struct Alt {
    pub dot: u32,
    /// Where the second symbol starts; none for rules with one symbol.
    pub split: Option<usize>,
    pub p: P,
}

#[derive(Clone, Debug)]
pub struct Frag {
    pub sym: usize,
    pub origin: usize,
    pub alts: Vec<Alt>,
}

#[derive(Clone, Debug)]
struct Med {
    dot: u32,
    origin: usize,
    left: P,
}

#[derive(Clone, Debug, Default)]
struct BSet {
    pred: Vec<bool>,
    medial: Vec<Med>,
}

/// Which derivations the caller refuses, by the position that is being closed.
pub trait Veto {
    fn alt(&self, sym: usize, origin: usize, alt: &Alt) -> bool;
}
pub struct NoVeto;
impl Veto for NoVeto {
    fn alt(&self, _: usize, _: usize, _: &Alt) -> bool {
        false
    }
}

#[derive(Clone)]
pub struct BRef<'g> {
    pub g: &'g TestGrammar,
    sets: Vec<BSet>,
    pub frags: Vec<Frag>,
    texts: bool,
}

impl<'g> BRef<'g> {
    /// Position 0: before the start of input was read. Position p + 1 follows user token p.
    pub fn new(g: &'g TestGrammar, texts: bool) -> Self {
        let mut r = BRef { g, sets: vec![BSet { pred: g.predicts[g.root_num()].clone(), medial: vec![] }], frags: vec![], texts };
        r.step(&[Tok { sym: g.sof_num(), val: 0 }], &NoVeto);
        r
    }
    /// As `new`, with the reading of the start of input left to the caller.
    pub fn before_sof(g: &'g TestGrammar, texts: bool) -> Self {
        BRef { g, sets: vec![BSet { pred: g.predicts[g.root_num()].clone(), medial: vec![] }], frags: vec![], texts }
    }
    /// Without any set: only good for `complete_value`.
    pub fn empty(g: &'g TestGrammar, texts: bool) -> Self {
        BRef { g, sets: vec![], frags: vec![], texts }
    }
    pub fn pos(&self) -> usize {
        self.sets.len() - 1
    }
    /// Tokens that can be accepted now (empty if none).
    pub fn accepts(&self, sym: usize) -> bool {
        let s = self.sets.last().unwrap();
        s.pred[sym] && {
            // Predicted terminals are always accepted by whoever predicted them.
            true
        }
    }
    pub fn viable(&self) -> Vec<usize> {
        let s = self.sets.last().unwrap();
        self.g.terminals().into_iter().filter(|&t| s.pred[t]).collect()
    }
    pub fn predicted(&self) -> Vec<u32> {
        let s = self.sets.last().unwrap();
        (0..self.g.syms as u32).filter(|&i| s.pred[i as usize]).collect()
    }
    pub fn medial(&self) -> Vec<(u32, usize)> {
        let mut v: Vec<_> = self.sets.last().unwrap().medial.iter().map(|m| (m.dot, m.origin)).collect();
        v.sort();
        v
    }
    pub fn finished(&self) -> Option<P> {
        self.sets.last().unwrap().medial.iter().find(|m| m.dot == self.g.dot_before_eof).map(|m| m.left.clone())
    }

    fn leaf(&self, t: &Tok) -> P {
        if t.sym == self.g.sof_num() {
            P::one()
        } else {
            p_leaf(t, self.texts)
        }
    }

    fn null(&self, s: Slot) -> P {
        match self.g.kinds[s.sym] {
            Kind::Inter(r, lo, hi) => {
                let mut p = P::one();
                for q in lo..hi {
                    let sym = self.g.orig.rules[r].1[q];
                    let sym = self.g.of_orig[sym].unwrap_or(usize::MAX);
                    p = p.times(&p_null(sym, self.texts).factor(Some((r, q))));
                }
                p
            }
            _ => p_null(s.sym, self.texts).factor(s.at),
        }
    }

    /// The value of a completed rule out of the values of its symbols.
    pub fn complete_value(&self, dot: u32, left: &P, right: Option<&P>) -> P {
        let r = &self.g.rules[dot as usize];
        let mut p = left.factor(r.rhs0.at);
        if let Some(right) = right {
            p = p.times(&right.factor(r.rhs1.unwrap().at));
        }
        if let Some((s, right)) = r.elim {
            let n = self.null(s);
            p = if right { p.times(&n) } else { n.times(&p) };
        }
        if let Some(o) = r.origin {
            p = p.wrap(o);
        }
        p
    }

    /// Reads a set of tokens with distinct symbols (or values); false and no change if none fits.
    pub fn step(&mut self, toks: &[Tok], veto: &dyn Veto) -> bool {
        let g = self.g;
        let cur = self.sets.len() - 1;
        let j = self.sets.len();
        if !toks.iter().any(|t| self.sets[cur].pred[t.sym]) {
            return false;
        }
        self.sets.push(BSet { pred: vec![false; g.syms], medial: vec![] });
        let mut frags: Vec<Frag> = vec![];
        let mut pending: std::collections::BTreeMap<(usize, usize), Vec<Alt>> = Default::default();
        for t in toks {
            if self.sets[cur].pred[t.sym] {
                let p = self.leaf(t);
                self.complete(t.sym, cur, j, &p, &mut pending);
            }
        }
        while let Some(((origin, sym), alts)) = pending.pop_last() {
            let mut p = P::default();
            let mut any = false;
            for a in &alts {
                if !veto.alt(sym, origin, a) {
                    p = p.plus(&a.p);
                    any = true;
                }
            }
            frags.push(Frag { sym, origin, alts });
            if any {
                self.complete(sym, origin, j, &p, &mut pending);
            }
        }
        let mut pred = vec![false; g.syms];
        for m in &self.sets[j].medial {
            let next = g.rules[m.dot as usize].rhs1.unwrap().sym;
            if !pred[next] {
                for (d, &s) in pred.iter_mut().zip(&g.predicts[next]) {
                    *d |= s;
                }
            }
        }
        self.sets[j].pred = pred;
        self.frags = frags;
        true
    }

    fn complete(&mut self, sym: usize, origin: usize, j: usize, p: &P, pending: &mut std::collections::BTreeMap<(usize, usize), Vec<Alt>>) {
        let g = self.g;
        let mut new: Vec<((usize, usize), Alt)> = vec![];
        for m in &self.sets[origin].medial {
            if g.rules[m.dot as usize].rhs1.unwrap().sym == sym {
                let lhs = g.rules[m.dot as usize].lhs;
                new.push(((m.origin, lhs), Alt { dot: m.dot, split: Some(origin), p: self.complete_value(m.dot, &m.left, Some(p)) }));
            }
        }
        for &d in &g.by_rhs0[sym] {
            let r = &g.rules[d as usize];
            if self.sets[origin].pred[g.ultimate[r.lhs]] {
                if r.rhs1.is_some() {
                    self.sets[j].medial.push(Med { dot: d, origin, left: p.clone() });
                } else {
                    new.push(((origin, r.lhs), Alt { dot: d, split: None, p: self.complete_value(d, p, None) }));
                }
            }
        }
        for (k, a) in new {
            pending.entry(k).or_default().push(a);
        }
    }

    /// Origins of the items at the last position.
    pub fn max_origin(&self) -> Option<usize> {
        self.sets.last().unwrap().medial.iter().map(|m| m.origin).max()
    }
}
