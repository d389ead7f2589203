//! Forests under the recognizer: a recording forest that checks the callback protocol and fingerprints the trees, and
//! the two bundled forests behind a shared handle, all with a fuse that makes any callback fail.

use super::gram::*;
use super::refs::*;
use cfg_symbol::Symbol;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use simcore::inject;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Makes the n-th callback fail, before or after it did its work.
#[derive(Default)]
pub struct Fuse {
    left: AtomicI64,
    after: AtomicI64,
    pub calls: AtomicU64,
}

impl Fuse {
    pub fn arm(&self, n: i64, after: bool) {
        self.left.store(n, Ordering::Relaxed);
        self.after.store(after as i64, Ordering::Relaxed);
    }
    pub fn disarm(&self) {
        self.left.store(0, Ordering::Relaxed);
    }
    fn hit(&self) -> bool {
        yield_point();
        self.calls.fetch_add(1, Ordering::Relaxed);
        let l = self.left.load(Ordering::Relaxed);
        if l > 0 {
            self.left.store(l - 1, Ordering::Relaxed);
            if l == 1 {
                if self.after.load(Ordering::Relaxed) == 0 {
                    inject("forest-callback-panic");
                }
                return true;
            }
        }
        false
    }
}

// -------------------------------------------------------------------------------------------------- yield points

type Yield = Rc<dyn Fn()>;

thread_local! {
    static YIELD: RefCell<Option<Yield>> = const { RefCell::new(None) };
}

/// Every forest callback and every action of an evaluation passes here: the scheduler may let others go on.
fn yield_point() {
    let f = YIELD.with(|y| y.borrow().clone());
    if let Some(f) = f {
        f();
    }
}

/// Installs a scheduler's yield function on this thread while `body` runs.
pub fn with_yield<T>(f: impl Fn(), body: impl FnOnce() -> T) -> T {
    struct Restore(Option<Yield>);
    impl Drop for Restore {
        fn drop(&mut self) {
            YIELD.with(|y| *y.borrow_mut() = self.0.take());
        }
    }
    let rc: Rc<dyn Fn() + '_> = Rc::new(f);
    // SAFETY: `restore` takes the function out again before this call returns, and no copy outlives `yield_point`.
    let rc: Yield = unsafe { std::mem::transmute(rc) };
    let restore = Restore(YIELD.with(|y| y.borrow_mut().replace(rc)));
    let r = body();
    drop(restore);
    r
}

// ---------------------------------------------------------------------------------------------------- recording

#[derive(Clone, Debug)]
pub enum RKind {
    Leaf,
    Nulling,
    Product { left: u32, right: u32 },
    Sum { alts: Vec<(u32, u32)> },
}

#[derive(Clone, Debug)]
pub struct RNode {
    pub kind: RKind,
    pub sym: Option<usize>,
    pub start: usize,
    pub end: usize,
    pub p: P,
    session: u64,
}

pub struct Rec {
    g: Arc<BInfo>,
    pub nodes: Vec<RNode>,
    sum: Option<Vec<(u32, u32, P, u32)>>, // dot, node, value, origin
    /// Positions of the recognizer's retained sets.
    pub map: Vec<usize>,
    /// The position being built.
    pub now: usize,
    pub session: u64,
    pub error: Option<String>,
    /// Sums may be begun and abandoned by the caller.
    pub abandon_ok: bool,
}

/// What the recording forest needs to know of a grammar.
pub struct BInfo {
    pub rules: Vec<BRule>,
    pub sof: usize,
    texts: bool,
    gram: GramPtr,
}

/// The grammar outlives every forest made for it (both are locals of one run).
struct GramPtr(*const TestGrammar);
unsafe impl Send for GramPtr {}
unsafe impl Sync for GramPtr {}

impl Rec {
    pub fn new(g: &TestGrammar, texts: bool) -> Rec {
        Rec {
            g: Arc::new(BInfo { rules: g.rules.clone(), sof: g.sof_num(), texts, gram: GramPtr(g) }),
            nodes: vec![],
            sum: None,
            map: vec![],
            now: 0,
            session: 0,
            error: None,
            abandon_ok: false,
        }
    }
    fn err(&mut self, m: String) {
        if self.error.is_none() {
            let (skipped, last) = self.map.split_at(self.map.len().saturating_sub(16));
            let some = if skipped.is_empty() { String::new() } else { format!("{} and ", skipped.len()) };
            self.error = Some(format!("{m} (session {}, position {}, retained {some}{last:?})", self.session, self.now));
        }
    }
    fn push(&mut self, kind: RKind, sym: Option<usize>, start: usize, end: usize, p: P) -> u32 {
        let session = self.session;
        self.nodes.push(RNode { kind, sym, start, end, p, session });
        self.nodes.len() as u32 - 1
    }
    fn node(&mut self, n: u32, what: &str) -> Option<RNode> {
        match self.nodes.get(n as usize).cloned() {
            None => {
                self.err(format!("{what}: node {n} was never handed out"));
                None
            }
            Some(r) if r.session != self.session => {
                self.err(format!("{what}: node {n} belongs to an earlier session"));
                None
            }
            r => r,
        }
    }
    fn leaf(&mut self, sym: usize, pos: u32, val: u32) -> u32 {
        let (s, e) = (self.now.wrapping_sub(1), self.now);
        // A token ends at the position that is being built, and that one follows all retained ones.
        if pos as usize != self.map.len() {
            self.err(format!("leaf of symbol {sym} is said to end at retained position {pos}, not {}", self.map.len()));
        }
        let p = if sym == self.g.sof { P::one() } else { p_leaf(&Tok { sym, val }, self.g.texts) };
        self.push(RKind::Leaf, Some(sym), s, e, p)
    }
    fn product(&mut self, left: u32, right: u32) -> u32 {
        let (l, r) = (self.node(left, "product"), self.node(right, "product"));
        if let (Some(l), Some(r)) = (l, r) {
            if l.end != r.start || r.end != self.now {
                self.err(format!(
                    "product joins {}..{} and {}..{} at position {}",
                    l.start, l.end, r.start, r.end, self.now
                ));
            }
            if l.sym.is_none() || r.sym.is_none() {
                self.err("product of an unfinished product".into());
            }
            return self.push(RKind::Product { left, right }, None, l.start, r.end, P::default());
        }
        self.push(RKind::Product { left, right }, None, 0, 0, P::default())
    }
    fn begin_sum(&mut self) {
        if self.sum.is_some() && !self.abandon_ok {
            self.err("begin_sum inside an unfinished sum".into());
        }
        self.sum = Some(vec![]);
    }
    /// Value of an item that completes a rule; checks that the node fits the rule.
    pub fn item_value(&mut self, dot: u32, node: u32) -> Option<(P, usize, Option<usize>)> {
        let n = self.node(node, "summand")?;
        let Some(rule) = self.g.rules.get(dot as usize).cloned() else {
            self.err(format!("summand with unknown dot {dot}"));
            return None;
        };
        // SAFETY: see GramPtr.
        let g = unsafe { &*self.g.gram.0 };
        let bref = BRef::before_sof_cheap(g, self.g.texts);
        match (&rule.rhs1, &n.kind) {
            (Some(s1), RKind::Product { left, right }) => {
                let (l, r) = (self.node(*left, "factor")?, self.node(*right, "factor")?);
                if l.sym != Some(rule.rhs0.sym) || r.sym != Some(s1.sym) {
                    self.err(format!("factors {:?} {:?} do not fit dot {dot}", l.sym, r.sym));
                }
                Some((bref.complete_value(dot, &l.p, Some(&r.p)), n.start, Some(l.end)))
            }
            (None, RKind::Leaf | RKind::Sum { .. }) => {
                if n.sym != Some(rule.rhs0.sym) {
                    self.err(format!("node of symbol {:?} does not fit dot {dot}", n.sym));
                }
                Some((bref.complete_value(dot, &n.p, None), n.start, None))
            }
            (_, k) => {
                self.err(format!("node {k:?} does not fit dot {dot}"));
                None
            }
        }
    }
    fn push_summand(&mut self, dot: u32, origin: u32, node: u32) {
        let Some((p, start, _)) = self.item_value(dot, node) else { return };
        let end = self.nodes[node as usize].end;
        if end != self.now {
            self.err(format!("summand ends at {end}, not at the current position {}", self.now));
        }
        match self.map.get(origin as usize) {
            Some(&o) if o == start => {}
            o => self.err(format!("summand starts at {start}, its origin says {o:?}")),
        }
        match &mut self.sum {
            Some(s) => {
                let dup = s.iter().any(|x| x.0 == dot && x.1 == node);
                s.push((dot, node, p, origin));
                if dup {
                    self.err(format!("summand dot {dot} node {node} pushed twice into one sum"));
                }
            }
            None => self.err("push_summand outside of a sum".into()),
        }
    }
    fn sum(&mut self, sym: usize, origin: u32) -> u32 {
        let Some(s) = self.sum.take() else {
            self.err("sum without begin_sum".into());
            return self.push(RKind::Sum { alts: vec![] }, Some(sym), 0, self.now, P::default());
        };
        if s.is_empty() {
            self.err("empty sum".into());
        }
        let mut p = P::default();
        for (dot, _, v, o) in &s {
            p = p.plus(v);
            if *o != origin {
                self.err(format!("sum at origin {origin} has a summand at origin {o}"));
            }
            let lhs = self.g.rules.get(*dot as usize).map(|r| r.lhs);
            if lhs != Some(sym) {
                self.err(format!("sum of symbol {sym} has a summand for {lhs:?}"));
            }
        }
        let start = match self.map.get(origin as usize) {
            Some(&o) => o,
            None => {
                self.err(format!("sum at unknown origin {origin}"));
                0
            }
        };
        let now = self.now;
        self.push(RKind::Sum { alts: s.iter().map(|x| (x.0, x.1)).collect() }, Some(sym), start, now, p)
    }
}

impl<'g> BRef<'g> {
    pub fn before_sof_cheap(g: &'g TestGrammar, texts: bool) -> Self {
        BRef::empty(g, texts)
    }
}

// ----------------------------------------------------------------------------------------------------- SimForest

#[derive(Clone)]
pub enum Store {
    Null,
    Rec(Arc<Mutex<Rec>>),
    Simple(Arc<Mutex<simple_bocage::Bocage>>),
    Compact(Arc<Mutex<compact_bocage::Bocage>>),
}

#[derive(Clone)]
pub struct SimForest {
    pub store: Store,
    pub fuse: Arc<Fuse>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FKind {
    Null,
    Rec,
    Simple,
    Compact,
}

impl SimForest {
    pub fn new(kind: FKind, g: &TestGrammar, cap: usize, texts: bool) -> SimForest {
        let store = match kind {
            FKind::Null => Store::Null,
            FKind::Rec => Store::Rec(Arc::new(Mutex::new(Rec::new(g, texts)))),
            FKind::Simple if cap == 1024 => Store::Simple(Arc::new(Mutex::new(simple_bocage::Bocage::new(g)))),
            FKind::Compact if cap == 1024 => Store::Compact(Arc::new(Mutex::new(compact_bocage::Bocage::new(g)))),
            FKind::Simple => Store::Simple(Arc::new(Mutex::new(simple_bocage::Bocage::with_capacity(g, cap)))),
            FKind::Compact => Store::Compact(Arc::new(Mutex::new(compact_bocage::Bocage::with_capacity(g, cap)))),
        };
        SimForest { store, fuse: Default::default() }
    }
    pub fn kind(&self) -> FKind {
        match self.store {
            Store::Null => FKind::Null,
            Store::Rec(_) => FKind::Rec,
            Store::Simple(_) => FKind::Simple,
            Store::Compact(_) => FKind::Compact,
        }
    }
    pub fn set_position(&self, map: &[usize], now: usize) {
        if let Store::Rec(r) = &self.store {
            let mut r = lock(r);
            // Within a session the list only ever loses positions at its end and gains one there.
            let keep = map.len().saturating_sub(1);
            if keep > 0 && r.map.len() >= keep && r.map[keep - 1] == map[keep - 1] {
                r.map.truncate(keep);
                r.map.push(map[keep]);
            } else {
                r.map.clear();
                r.map.extend_from_slice(map);
            }
            r.now = now;
        }
    }
    pub fn new_session(&self) {
        if let Store::Rec(r) = &self.store {
            let mut r = lock(r);
            r.session += 1;
            r.sum = None;
            r.map.clear();
            r.now = 0;
        }
    }
    pub fn error(&self) -> Option<String> {
        match &self.store {
            Store::Rec(r) => lock(r).error.clone(),
            _ => None,
        }
    }
    pub fn rec(&self) -> Option<MutexGuard<'_, Rec>> {
        match &self.store {
            Store::Rec(r) => Some(lock(r)),
            _ => None,
        }
    }
    /// What the finished node stands for, as far as this forest can tell.
    pub fn describe(&self, node: u32, unambiguous: bool) -> String {
        match &self.store {
            Store::Null => "finished".into(),
            Store::Rec(r) => {
                let r = lock(r);
                match r.nodes.get(node as usize) {
                    Some(n) => format!("{} {:?}", n.p.show(), n.p.t),
                    None => "unknown node".into(),
                }
            }
            _ => {
                if unambiguous {
                    self.evaluate(node, None).0
                } else {
                    "ambiguous".into()
                }
            }
        }
    }
    /// Evaluates in a bundled forest.
    pub fn evaluate_with<E: Evaluate>(&self, eval: E, node: u32) -> Vec<E::Elem> {
        match &self.store {
            Store::Simple(b) => lock(b).evaluate(eval, NodeHandle(node)),
            Store::Compact(b) => lock(b).evaluate(eval, NodeHandle(node)),
            _ => vec![],
        }
    }
    /// Evaluates with an evaluator that writes the tree and logs its calls; `fail_at`: the call that panics.
    pub fn evaluate(&self, node: u32, fail_at: Option<u64>) -> (String, Vec<String>) {
        let log = Mutex::new(EvalLog { calls: vec![], fail_at });
        let eval = Eval { log: &log };
        let r = self.evaluate_with(eval, node);
        let text = match &r[..] {
            [one] => one.0.clone(),
            many => format!("{} values: {:?}", many.len(), many),
        };
        (text, log.into_inner().unwrap_or_else(|e| e.into_inner()).calls)
    }
}

pub struct EvalLog {
    pub calls: Vec<String>,
    fail_at: Option<u64>,
}

#[derive(Default, Debug)]
pub struct Text(pub String);

pub struct Eval<'a> {
    log: &'a Mutex<EvalLog>,
}

impl Eval<'_> {
    fn note(&self, s: String) -> Text {
        yield_point();
        let mut l = lock(self.log);
        if let Some(n) = l.fail_at {
            if l.calls.len() as u64 >= n {
                drop(l);
                inject("action-panic");
            }
        }
        l.calls.push(s.clone());
        Text(s)
    }
}

impl Evaluate for Eval<'_> {
    type Elem = Text;
    fn leaf(&self, terminal: Symbol, values: u32) -> Text {
        self.note(format!("t{}:{}", terminal.usize(), values))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Text>) -> Text
    where
        Text: 'a,
    {
        let args: Vec<&str> = args.map(|a| &a.0[..]).collect();
        self.note(format!("r{}({})", action, args.join(",")))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Text>) {
        let v = self.note(format!("n{}", symbol.usize()));
        results.push(v);
    }
}

/// Node reference as the recognizer sees it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ref(pub u32);

impl Forest for SimForest {
    type NodeRef = Ref;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;

    fn begin_sum(&mut self) {
        let late = self.fuse.hit();
        match &self.store {
            Store::Null => {}
            Store::Rec(r) => lock(r).begin_sum(),
            Store::Simple(b) => lock(b).begin_sum(),
            Store::Compact(b) => lock(b).begin_sum(),
        }
        if late {
            inject("forest-callback-panic");
        }
    }
    fn push_summand(&mut self, item: Item<Ref>) {
        let late = self.fuse.hit();
        let it = Item { dot: item.dot, origin: item.origin, node: NodeHandle(item.node.0) };
        match &self.store {
            Store::Null => {}
            Store::Rec(r) => lock(r).push_summand(item.dot, item.origin, item.node.0),
            Store::Simple(b) => lock(b).push_summand(it),
            Store::Compact(b) => lock(b).push_summand(it),
        }
        if late {
            inject("forest-callback-panic");
        }
    }
    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> Ref {
        let late = self.fuse.hit();
        let r = match &self.store {
            Store::Null => 0,
            Store::Rec(r) => lock(r).sum(lhs_sym.usize(), origin),
            Store::Simple(b) => lock(b).sum(lhs_sym, origin).0,
            Store::Compact(b) => lock(b).sum(lhs_sym, origin).0,
        };
        if late {
            inject("forest-callback-panic");
        }
        Ref(r)
    }
    fn product(&mut self, left: Ref, right: Ref) -> Ref {
        let late = self.fuse.hit();
        let (l, q) = (NodeHandle(left.0), NodeHandle(right.0));
        let r = match &self.store {
            Store::Null => 0,
            Store::Rec(r) => lock(r).product(left.0, right.0),
            Store::Simple(b) => lock(b).product(l, q).0,
            Store::Compact(b) => lock(b).product(l, q).0,
        };
        if late {
            inject("forest-callback-panic");
        }
        Ref(r)
    }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> Ref {
        let late = self.fuse.hit();
        let r = match &self.store {
            Store::Null => 0,
            Store::Rec(r) => lock(r).leaf(token.usize(), pos, value),
            Store::Simple(b) => lock(b).leaf(token, pos, value).0,
            Store::Compact(b) => lock(b).leaf(token, pos, value).0,
        };
        if late {
            inject("forest-callback-panic");
        }
        Ref(r)
    }
    fn nulling(&self, token: Symbol) -> Ref {
        let late = self.fuse.hit();
        let r = match &self.store {
            Store::Null => 0,
            Store::Rec(r) => {
                let mut r = lock(r);
                let p = p_null(token.usize(), r.g.texts);
                r.push(RKind::Nulling, Some(token.usize()), 0, 0, p)
            }
            Store::Simple(b) => lock(b).nulling(token).0,
            Store::Compact(b) => lock(b).nulling(token).0,
        };
        if late {
            inject("forest-callback-panic");
        }
        Ref(r)
    }
}
