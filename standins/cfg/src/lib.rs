//! Stand-in for pczarn/cfg's `cfg` crate (not available offline): context-free grammars and the part of their
//! preparation that `gearley-default-grammar` leaves to that crate (proper form, wrapping, binarization, elimination of
//! empty rules, renumbering, FIRST and FOLLOW sets). The last prepared grammar can be looked at with `observe`.

pub use cfg_history as history;
pub use cfg_symbol::{intern, Symbol, SymbolName, SymbolSource};

use bit_vec::BitVec;
use cfg_history::earley::{EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance, NullingEliminated, RuleDot};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt;
use std::rc::Rc;

/// What a symbol stands for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Origin {
    User(Symbol),
    Root,
    /// Start of input and the inner root.
    Wrapped,
    StartOfInput,
    EndOfInput,
    /// Positions lo..hi of a user's rule.
    Part(u32, u32, u32),
}

/// Position of a user's rule: number of the rule, number of the symbol.
pub type Place = (u32, u32);

#[derive(Clone, Debug)]
pub struct History {
    origin: ExternalOrigin,
    nullable: NullingEliminated,
    nullable_place: Option<Place>,
    places: Vec<Option<Place>>,
    dots: [RuleDot; 3],
    key: u32,
}

impl History {
    /// Events and traces of predictions depend on the symbol only.
    fn new(key: u32, lhs: Symbol, origin: ExternalOrigin) -> Self {
        let dot = |pos: u32| {
            let id = if pos == 0 { lhs.usize() as u32 } else { 1000 + key };
            RuleDot {
                event: EventId { id: id * 4 + pos },
                distance: MinimalDistance { distance: (id * 7 + pos * 5) % 31 },
                trace: ExternalDottedRule { id, pos },
            }
        };
        History { origin, nullable: None, nullable_place: None, places: vec![], dots: [dot(0), dot(1), dot(2)], key }
    }
    pub fn origin(&self) -> ExternalOrigin {
        self.origin
    }
    /// The empty symbol left out of this rule; true if it was the right one.
    pub fn nullable(&self) -> NullingEliminated {
        self.nullable
    }
    pub fn nullable_place(&self) -> Option<Place> {
        self.nullable_place
    }
    pub fn places(&self) -> &[Option<Place>] {
        &self.places
    }
    pub fn dot(&self, pos: usize) -> RuleDot {
        self.dots[pos]
    }
    pub fn key(&self) -> u32 {
        self.key
    }
}

#[derive(Clone, Debug)]
pub struct CfgRule {
    pub lhs: Symbol,
    pub rhs: Rc<[Symbol]>,
    pub history: History,
}

impl CfgRule {
    pub fn lhs(&self) -> Symbol {
        self.lhs
    }
    pub fn rhs(&self) -> &[Symbol] {
        &self.rhs
    }
    pub fn history(&self) -> &History {
        &self.history
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WrappedRoot {
    pub root: Symbol,
    pub start_of_input: Symbol,
    pub end_of_input: Symbol,
    pub inner_root: Symbol,
}

/// A position in a rule.
#[derive(Clone, Copy, Debug)]
pub struct Dot {
    pub lhs: Symbol,
    pub predot: Option<Symbol>,
    pub postdot: Option<Symbol>,
    pub earley: Option<RuleDot>,
}

#[derive(Clone)]
pub struct Cfg {
    source: SymbolSource,
    rules: Vec<CfgRule>,
    roots: Vec<Symbol>,
    wrapped: Vec<WrappedRoot>,
    origins: Vec<Origin>,
    /// Symbols that must keep a number although no rule uses them.
    keep: BTreeSet<Symbol>,
    keys: u32,
    /// Numbers of all symbols before and after renumbering.
    mapping: Option<intern::Mapping>,
}

/// The last renumbered grammar that was given up, for onlookers.
#[derive(Clone)]
pub struct Prepared {
    pub rules: Vec<CfgRule>,
    pub origins: Vec<Origin>,
    pub wrapped: WrappedRoot,
    pub mapping: intern::Mapping,
}

thread_local! {
    static LAST: RefCell<Option<Prepared>> = const { RefCell::new(None) };
}

/// Takes what is known about the last prepared grammar of this thread.
pub fn observe() -> Option<Prepared> {
    LAST.with(|l| l.borrow_mut().take())
}

impl Drop for Cfg {
    fn drop(&mut self) {
        if let (Some(mapping), Some(&wrapped)) = (&self.mapping, self.wrapped.first()) {
            let p = Prepared { rules: self.rules.clone(), origins: self.origins.clone(), wrapped, mapping: mapping.clone() };
            let _ = LAST.try_with(|l| *l.borrow_mut() = Some(p));
        }
    }
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            source: SymbolSource::new(),
            rules: vec![],
            roots: vec![],
            wrapped: vec![],
            origins: vec![],
            keep: BTreeSet::new(),
            keys: 0,
            mapping: None,
        }
    }
}

pub struct RuleBuilder<'a> {
    cfg: &'a mut Cfg,
    lhs: Symbol,
}

impl<'a> RuleBuilder<'a> {
    pub fn rhs(self, rhs: impl AsRef<[Symbol]>) -> RuleBuilder<'a> {
        self.cfg.add_rule(self.lhs, rhs.as_ref());
        self
    }
    pub fn rule(mut self, lhs: Symbol) -> RuleBuilder<'a> {
        self.lhs = lhs;
        self
    }
}

impl Cfg {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_sym_source(source: SymbolSource) -> Self {
        let mut g = Self::default();
        g.source = source;
        g
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        self.source.sym()
    }
    pub fn next_sym(&mut self, name: Option<std::borrow::Cow<str>>) -> Symbol {
        self.source.next_sym(name)
    }
    pub fn sym_source(&self) -> &SymbolSource {
        &self.source
    }
    pub fn sym_source_mut(&mut self) -> &mut SymbolSource {
        &mut self.source
    }
    pub fn num_syms(&self) -> usize {
        self.source.num_syms()
    }
    pub fn rule(&mut self, lhs: Symbol) -> RuleBuilder<'_> {
        RuleBuilder { cfg: self, lhs }
    }
    pub fn set_roots(&mut self, roots: impl AsRef<[Symbol]>) {
        self.roots = roots.as_ref().to_vec();
    }
    pub fn roots(&self) -> &[Symbol] {
        &self.roots
    }
    pub fn wrapped_roots(&self) -> &[WrappedRoot] {
        &self.wrapped
    }
    pub fn rules(&self) -> std::slice::Iter<'_, CfgRule> {
        self.rules.iter()
    }
    pub fn is_empty(&self) -> bool {
        self.rules.is_empty()
    }
    pub fn sort_by(&mut self, f: impl FnMut(&CfgRule, &CfgRule) -> Ordering) {
        self.rules.sort_by(f);
    }
    pub fn sort(&mut self) {
        self.rules.sort_by(|a, b| (a.lhs, &a.rhs).cmp(&(b.lhs, &b.rhs)));
    }
    pub fn retain(&mut self, f: impl FnMut(&CfgRule) -> bool) {
        self.rules.retain(f);
    }
    fn add_rule(&mut self, lhs: Symbol, rhs: &[Symbol]) {
        let key = self.keys;
        self.keys += 1;
        let mut history = History::new(key, lhs, ExternalOrigin { id: key });
        history.places = (0..rhs.len()).map(|p| Some((key, p as u32))).collect();
        self.rules.push(CfgRule { lhs, rhs: rhs.into(), history });
    }
    fn fresh(&mut self, origin: Origin) -> Symbol {
        self.know_origins();
        let s = self.source.next_sym(None);
        self.origins.push(origin);
        s
    }
    fn know_origins(&mut self) {
        for i in self.origins.len()..self.num_syms() {
            self.origins.push(Origin::User(Symbol::from_raw(i as u32)));
        }
    }

    /// Every rule's dot at the given position.
    pub fn column(&self, pos: usize) -> impl Iterator<Item = Dot> + '_ {
        self.rules.iter().map(move |r| Dot {
            lhs: r.lhs,
            predot: pos.checked_sub(1).and_then(|p| r.rhs.get(p).copied()),
            postdot: r.rhs.get(pos).copied(),
            earley: Some(r.history.dots[pos]),
        })
    }

    /// Symbols that derive a string of terminals, with `base` known to.
    fn productive(&self, terminals: &BitVec, empty: bool) -> Vec<bool> {
        let mut v: Vec<bool> = terminals.iter().collect();
        loop {
            let mut changed = false;
            for r in &self.rules {
                if !v[r.lhs.usize()] && (empty || !r.rhs.is_empty()) && r.rhs.iter().all(|s| v[s.usize()]) {
                    v[r.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                return v;
            }
        }
    }

    fn reachable(&self, from: &[Symbol]) -> Vec<bool> {
        let mut v = vec![false; self.num_syms()];
        for s in from {
            v[s.usize()] = true;
        }
        loop {
            let mut changed = false;
            for r in &self.rules {
                if v[r.lhs.usize()] {
                    for s in r.rhs.iter() {
                        if !v[s.usize()] {
                            v[s.usize()] = true;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                return v;
            }
        }
    }

    fn terminals(&self) -> BitVec {
        let mut t = BitVec::from_elem(self.num_syms(), true);
        for r in &self.rules {
            t.set(r.lhs.usize(), false);
        }
        t
    }

    /// Adds `root ::= start_of_input inner_root end_of_input`.
    pub fn wrap_input(&mut self) {
        assert!(self.wrapped.is_empty(), "already wrapped");
        let roots = self.roots.clone();
        let mut new_roots = vec![];
        for inner_root in roots {
            let root = self.fresh(Origin::Root);
            let start_of_input = self.fresh(Origin::StartOfInput);
            let end_of_input = self.fresh(Origin::EndOfInput);
            self.wrapped.push(WrappedRoot { root, start_of_input, end_of_input, inner_root });
            new_roots.push(root);
        }
        self.roots = new_roots;
    }

    /// Leaves rules of one or two symbols each, without empty ones; returns the rules by which symbols are empty.
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg {
        self.know_origins();
        let terminals = {
            let mut t = self.terminals();
            for w in &self.wrapped {
                t.set(w.root.usize(), false);
            }
            t
        };
        // Binarize, from the left.
        let old = std::mem::take(&mut self.rules);
        let mut binary: Vec<CfgRule> = vec![];
        let first_wrapped = self.wrapped.clone();
        for w in first_wrapped {
            let inner = self.fresh(Origin::Wrapped);
            for (lhs, rhs) in [(w.root, [inner, w.end_of_input]), (inner, [w.start_of_input, w.inner_root])] {
                let mut history = History::new(self.keys, lhs, ExternalOrigin::null());
                self.keys += 1;
                history.places = vec![None, None];
                binary.push(CfgRule { lhs, rhs: rhs[..].into(), history });
            }
        }
        for r in old {
            let n = r.rhs.len();
            if n <= 2 {
                binary.push(r);
                continue;
            }
            let key = r.history.key;
            let mut left = r.rhs[0];
            let mut place = Some((key, 0));
            for p in 1..n {
                let last = p == n - 1;
                let lhs = if last { r.lhs } else { self.fresh(Origin::Part(key, 0, p as u32 + 1)) };
                let mut history = if last {
                    History::new(key, lhs, r.history.origin)
                } else {
                    self.keys += 1;
                    History::new(self.keys - 1, lhs, ExternalOrigin::null())
                };
                history.places = vec![place, Some((key, p as u32))];
                binary.push(CfgRule { lhs, rhs: [left, r.rhs[p]][..].into(), history });
                left = lhs;
                place = None;
            }
        }
        // Nullable symbols.
        let n = self.num_syms();
        let mut nullable = vec![false; n];
        loop {
            let mut changed = false;
            for r in &binary {
                if !nullable[r.lhs.usize()] && r.rhs.iter().all(|s| nullable[s.usize()]) {
                    nullable[r.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut nulling = Cfg::with_sym_source(self.source.clone());
        nulling.roots = self.wrapped.iter().map(|w| w.inner_root).collect();
        for r in binary {
            if r.rhs.iter().all(|s| nullable[s.usize()]) {
                nulling.rules.push(r.clone());
            }
            if r.rhs.is_empty() {
                continue;
            }
            if r.rhs.len() == 2 {
                for (gone, stays) in [(1usize, 0usize), (0, 1)] {
                    if nullable[r.rhs[gone].usize()] {
                        let mut history = r.history.clone();
                        history.nullable = Some((r.rhs[gone], gone == 1));
                        history.nullable_place = r.history.places[gone];
                        history.places = vec![r.history.places[stays]];
                        self.rules.push(CfgRule { lhs: r.lhs, rhs: [r.rhs[stays]][..].into(), history });
                    }
                }
            }
            self.rules.push(r);
        }
        // What cannot be derived without empty symbols, or is not reached any more, goes.
        let mut base = terminals;
        base.grow(n - base.len(), false);
        let productive = self.productive(&base, false);
        self.rules.retain(|r| r.rhs.iter().all(|s| productive[s.usize()]));
        let reach = self.reachable(&self.roots);
        self.rules.retain(|r| reach[r.lhs.usize()]);
        // Empty symbols that are mentioned by what is left keep their numbers.
        self.keep.extend(self.wrapped.iter().map(|w| w.inner_root));
        let mentioned: Vec<Symbol> = self.rules.iter().filter_map(|r| r.history.nullable.map(|(s, _)| s)).collect();
        self.keep.extend(mentioned);
        let mut of_use: BTreeSet<Symbol> = self.keep.clone();
        of_use.extend((0..n).filter(|&i| reach[i]).map(|i| Symbol::from_raw(i as u32)));
        let used = |k: &BTreeSet<Symbol>, s: Symbol| k.contains(&s);
        loop {
            let before = of_use.len();
            for r in &nulling.rules {
                if used(&of_use, r.lhs) && r.history.origin.is_null() {
                    of_use.extend(r.rhs.iter().copied());
                }
            }
            if of_use.len() == before {
                break;
            }
        }
        nulling.rules.retain(|r| of_use.contains(&r.lhs) && (!r.history.origin.is_null() || r.rhs.iter().all(|s| of_use.contains(s))));
        for r in &nulling.rules {
            self.keep.insert(r.lhs);
            if r.history.origin.is_null() {
                self.keep.extend(r.rhs.iter().copied());
            }
        }
        nulling
    }

    pub fn stringify_to_bnf(&self) -> String {
        let mut s = String::new();
        for r in &self.rules {
            s.push_str(&format!("{:?} ::=", r.lhs));
            for x in r.rhs.iter() {
                s.push_str(&format!(" {:?}", x));
            }
            s.push_str(";\n");
        }
        s
    }
}

impl fmt::Debug for Cfg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("Cfg").field("rules", &self.stringify_to_bnf()).field("roots", &self.roots).finish()
    }
}

pub mod classify {
    use super::*;

    pub trait CfgClassifyExt {
        /// Removes rules that take part in no derivation of a string of terminals from a root.
        fn make_proper(&mut self) -> bool;
    }

    impl CfgClassifyExt for Cfg {
        fn make_proper(&mut self) -> bool {
            let before = self.rules.len();
            let productive = self.productive(&self.terminals(), true);
            self.rules.retain(|r| r.rhs.iter().all(|s| productive[s.usize()]));
            let reach = self.reachable(&self.roots);
            self.rules.retain(|r| reach[r.lhs.usize()]);
            before == self.rules.len()
        }
    }
}

/// A set of symbols.
#[derive(Clone)]
pub struct SymbolBitSet {
    bits: BitVec,
}

impl SymbolBitSet {
    pub fn from_elem(grammar: &Cfg, elem: bool) -> Self {
        SymbolBitSet { bits: BitVec::from_elem(grammar.num_syms(), elem) }
    }
    pub fn bit_vec(&self) -> &BitVec {
        &self.bits
    }
    pub fn set(&mut self, sym: Symbol, value: bool) {
        self.bits.set(sym.usize(), value);
    }
    pub fn has(&self, sym: Symbol) -> bool {
        self.bits[sym.usize()]
    }
    pub fn negate(&mut self) {
        self.bits.negate();
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ {
        self.bits.iter().enumerate().filter(|x| x.1).map(|x| Symbol::from_raw(x.0 as u32))
    }
}

impl std::ops::Index<Symbol> for SymbolBitSet {
    type Output = bool;
    fn index(&self, sym: Symbol) -> &bool {
        &self.bits[sym.usize()]
    }
}

impl fmt::Debug for SymbolBitSet {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}

pub mod symbol_bit_matrix {
    use super::*;
    use bit_matrix::BitMatrix;
    use std::ops::{Deref, DerefMut, Index};

    #[derive(Clone)]
    pub struct SymbolBitMatrix {
        matrix: BitMatrix,
    }

    impl Deref for SymbolBitMatrix {
        type Target = BitMatrix;
        fn deref(&self) -> &BitMatrix {
            &self.matrix
        }
    }
    impl DerefMut for SymbolBitMatrix {
        fn deref_mut(&mut self) -> &mut BitMatrix {
            &mut self.matrix
        }
    }
    impl Index<(Symbol, Symbol)> for SymbolBitMatrix {
        type Output = bool;
        fn index(&self, (a, b): (Symbol, Symbol)) -> &bool {
            &self.matrix[(a.usize(), b.usize())]
        }
    }
    impl fmt::Debug for SymbolBitMatrix {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            self.matrix.fmt(f)
        }
    }

    pub trait CfgSymbolBitMatrixExt {
        fn empty_matrix(&self) -> SymbolBitMatrix;
    }

    impl CfgSymbolBitMatrixExt for Cfg {
        fn empty_matrix(&self) -> SymbolBitMatrix {
            SymbolBitMatrix { matrix: BitMatrix::new(self.num_syms(), self.num_syms()) }
        }
    }

    /// Renumbers the symbols of a grammar.
    pub struct Remap<'a> {
        grammar: &'a mut Cfg,
        /// Current to first numbers.
        first: Vec<Symbol>,
        num_first: usize,
    }

    impl<'a> Remap<'a> {
        pub fn new(grammar: &'a mut Cfg) -> Self {
            grammar.know_origins();
            let n = grammar.num_syms();
            Remap { grammar, first: SymbolSource::generate_fresh().take(n).collect(), num_first: n }
        }

        /// Puts symbols in the given order; those that it does not relate keep their order.
        pub fn reorder_symbols<F>(&mut self, f: F)
        where
            F: Fn(Symbol, Symbol) -> Ordering,
        {
            let n = self.grammar.num_syms();
            let sy = |i: usize| Symbol::from_raw(i as u32);
            let less: Vec<Vec<bool>> =
                (0..n).map(|a| (0..n).map(|b| a != b && f(sy(a), sy(b)) == Ordering::Less).collect()).collect();
            let mut waits: Vec<usize> = (0..n).map(|b| (0..n).filter(|&a| less[a][b]).count()).collect();
            let mut placed = vec![false; n];
            let mut order = vec![];
            for _ in 0..n {
                let s = (0..n).find(|&s| !placed[s] && waits[s] == 0).unwrap_or_else(|| (0..n).find(|&s| !placed[s]).unwrap());
                placed[s] = true;
                order.push(sy(s));
                for b in 0..n {
                    if less[s][b] && waits[b] > 0 {
                        waits[b] -= 1;
                    }
                }
            }
            self.apply(order);
        }

        pub fn remove_unused_symbols(&mut self) {
            let g = &*self.grammar;
            let mut used: BTreeSet<Symbol> = g.keep.clone();
            for r in &g.rules {
                used.insert(r.lhs);
                used.extend(r.rhs.iter().copied());
                used.extend(r.history.nullable.map(|(s, _)| s));
            }
            for w in &g.wrapped {
                used.extend([w.root, w.start_of_input, w.end_of_input, w.inner_root]);
            }
            used.extend(g.roots.iter().copied());
            self.apply(used.into_iter().collect());
        }

        /// `order` lists current numbers in their new order.
        fn apply(&mut self, order: Vec<Symbol>) {
            let g = &mut *self.grammar;
            let mut new = vec![None; g.num_syms()];
            for (i, s) in order.iter().enumerate() {
                new[s.usize()] = Some(Symbol::from_raw(i as u32));
            }
            let m = |s: Symbol| new[s.usize()].expect("symbol in use");
            for r in &mut g.rules {
                r.lhs = m(r.lhs);
                r.rhs = r.rhs.iter().map(|&s| m(s)).collect();
                r.history.nullable = r.history.nullable.map(|(s, d)| (m(s), d));
            }
            for r in &mut g.roots {
                *r = m(*r);
            }
            for w in &mut g.wrapped {
                *w = WrappedRoot {
                    root: m(w.root),
                    start_of_input: m(w.start_of_input),
                    end_of_input: m(w.end_of_input),
                    inner_root: m(w.inner_root),
                };
            }
            g.keep = g.keep.iter().map(|&s| m(s)).collect();
            g.origins = order.iter().map(|s| g.origins[s.usize()]).collect();
            let names = g.source.names();
            g.source.truncate_to(order.iter().map(|s| names[s.usize()].clone()).collect());
            self.first = order.iter().map(|s| self.first[s.usize()]).collect();
        }

        pub fn get_mapping(self) -> intern::Mapping {
            let mut mapping = intern::Mapping::new(self.num_first);
            for (i, s) in self.first.iter().enumerate() {
                mapping.to_internal[s.usize()] = Some(Symbol::from_raw(i as u32));
            }
            mapping.to_external = self.first;
            self.grammar.mapping = Some(mapping.clone());
            mapping
        }
    }
}

pub mod predict_sets {
    use super::*;
    use std::collections::BTreeMap;

    pub type PerSymbolSets = BTreeMap<Symbol, BTreeSet<Symbol>>;

    pub trait PredictSets {
        fn predict_sets(&self) -> &PerSymbolSets;
    }

    /// Terminals that begin what a symbol derives.
    pub struct FirstSets {
        map: PerSymbolSets,
    }

    /// Terminals that may come after a symbol.
    pub struct FollowSets {
        map: PerSymbolSets,
    }

    fn merge(map: &mut PerSymbolSets, into: Symbol, from: &BTreeSet<Symbol>) -> bool {
        let e = map.entry(into).or_default();
        let before = e.len();
        e.extend(from.iter().copied());
        e.len() != before
    }

    impl FirstSets {
        /// For grammars without empty rules.
        pub fn new(grammar: &Cfg) -> Self {
            let terminals = grammar.terminals();
            let mut map = PerSymbolSets::new();
            loop {
                let mut changed = false;
                for r in grammar.rules() {
                    let s = r.rhs[0];
                    let from = if terminals[s.usize()] { BTreeSet::from([s]) } else { map.get(&s).cloned().unwrap_or_default() };
                    changed |= merge(&mut map, r.lhs, &from);
                }
                if !changed {
                    return FirstSets { map };
                }
            }
        }
    }

    impl FollowSets {
        pub fn new(grammar: &Cfg, first: &PerSymbolSets) -> Self {
            let terminals = grammar.terminals();
            let mut map = PerSymbolSets::new();
            loop {
                let mut changed = false;
                for r in grammar.rules() {
                    for w in r.rhs.windows(2) {
                        let from =
                            if terminals[w[1].usize()] { BTreeSet::from([w[1]]) } else { first.get(&w[1]).cloned().unwrap_or_default() };
                        changed |= merge(&mut map, w[0], &from);
                    }
                    if let (Some(&last), Some(from)) = (r.rhs.last(), map.get(&r.lhs).cloned()) {
                        changed |= merge(&mut map, last, &from);
                    }
                }
                if !changed {
                    return FollowSets { map };
                }
            }
        }
    }

    impl PredictSets for FirstSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.map
        }
    }
    impl PredictSets for FollowSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.map
        }
    }
}
