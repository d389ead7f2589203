//! What C programs are: the standard's phrase structure, a recogniser for it, and drawing of programs.

use simcore::Ctx;
use std::collections::{BTreeMap, HashSet};
use std::sync::OnceLock;

/// The standard's grammar. Symbols below `terminals.len()` are tokens.
pub struct Ref {
    pub terminals: Vec<String>,
    /// Left side and right side.
    rules: Vec<(usize, Vec<usize>)>,
    by_lhs: Vec<Vec<usize>>,
    /// Shortest program part that a symbol stands for.
    min: Vec<u32>,
    /// Left sides reachable at the beginning of a symbol, itself included.
    closure: Vec<Vec<usize>>,
    /// Rules that begin with a symbol.
    begins: Vec<Vec<usize>>,
    start: usize,
    names: BTreeMap<&'static str, usize>,
}

pub fn reference() -> &'static Ref {
    static R: OnceLock<Ref> = OnceLock::new();
    R.get_or_init(|| Ref::load(include_str!("c99.txt")))
}

impl Ref {
    fn load(text: &'static str) -> Ref {
        let lines: Vec<(&'static str, Vec<&'static str>)> = text
            .lines()
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .map(|l| {
                let (lhs, rhs) = l.split_once(": ").unwrap();
                (lhs, rhs.split(' ').collect())
            })
            .collect();
        let mut terminals: Vec<String> = vec![];
        for w in lines.iter().flat_map(|l| &l.1).filter(|w| w.starts_with('"')) {
            let name = w.trim_end_matches('?').trim_matches('"').to_string();
            if !terminals.contains(&name) {
                terminals.push(name);
            }
        }
        let nt = terminals.len();
        let mut names: BTreeMap<&'static str, usize> = BTreeMap::new();
        for l in &lines {
            let n = nt + names.len();
            names.entry(l.0).or_insert(n);
        }
        let syms = nt + names.len();
        let mut rules = vec![];
        for (lhs, rhs) in &lines {
            let parts: Vec<(usize, bool)> = rhs
                .iter()
                .map(|w| {
                    let name = w.trim_end_matches('?');
                    let s = match name.strip_prefix('"') {
                        Some(t) => terminals.iter().position(|n| n == t.trim_end_matches('"')).unwrap(),
                        None => names[name],
                    };
                    (s, w.ends_with('?'))
                })
                .collect();
            let optional: Vec<usize> = (0..parts.len()).filter(|&i| parts[i].1).collect();
            for mask in 0..1 << optional.len() {
                let left_out = |i: usize| optional.iter().position(|&o| o == i).is_some_and(|o| mask >> o & 1 == 1);
                let rhs: Vec<usize> = (0..parts.len()).filter(|&i| !left_out(i)).map(|i| parts[i].0).collect();
                assert!(!rhs.is_empty());
                rules.push((names[lhs], rhs));
            }
        }
        let mut by_lhs = vec![vec![]; syms];
        let mut begins = vec![vec![]; syms];
        for (i, (lhs, rhs)) in rules.iter().enumerate() {
            by_lhs[*lhs].push(i);
            begins[rhs[0]].push(i);
        }
        let mut min = vec![u32::MAX; syms];
        min[..nt].fill(1);
        loop {
            let mut changed = false;
            for (lhs, rhs) in &rules {
                let m = rhs.iter().fold(0u32, |a, &s| a.saturating_add(min[s]));
                if m < min[*lhs] {
                    min[*lhs] = m;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        assert!(min.iter().all(|&m| m < u32::MAX));
        let closure = (0..syms)
            .map(|s| {
                let mut seen = vec![s];
                let mut i = 0;
                while i < seen.len() {
                    for &r in &by_lhs[seen[i]] {
                        let f = rules[r].1[0];
                        if !seen.contains(&f) {
                            seen.push(f);
                        }
                    }
                    i += 1;
                }
                seen
            })
            .collect();
        let start = names["translation-unit"];
        Ref { terminals, rules, by_lhs, min, closure, begins, start, names }
    }

    pub fn terminal(&self, name: &str) -> usize {
        self.terminals.iter().position(|t| t == name).unwrap()
    }

    fn derive(&self, ctx: &mut Ctx, sym: usize, budget: u32, out: &mut Vec<usize>) {
        if sym < self.terminals.len() {
            out.push(sym);
            return;
        }
        let cost = |r: usize| self.rules[r].1.iter().map(|&s| self.min[s]).sum::<u32>();
        let fits: Vec<usize> = self.by_lhs[sym].iter().copied().filter(|&r| cost(r) <= budget.max(self.min[sym])).collect();
        // Rules that can use what is left are preferred.
        let nt = self.terminals.len();
        let wide = budget > self.min[sym] + 4;
        let weights: Vec<u32> = fits.iter().map(|&r| if wide && self.rules[r].1.iter().any(|&s| s >= nt) { 8 } else { 1 }).collect();
        let r = fits[ctx.weighted(&weights)];
        let mut spare = budget.saturating_sub(cost(r));
        let rhs = &self.rules[r].1;
        // Which part gets most is drawn first.
        let big = ctx.below(rhs.len() as u32) as usize;
        for (i, &s) in rhs.iter().enumerate() {
            let more = if i + 1 == rhs.len() {
                spare
            } else if i == big {
                spare - spare / 4
            } else {
                spare / 4
            };
            spare -= more;
            self.derive(ctx, s, self.min[s] + more, out);
        }
    }

    pub fn program(&self, ctx: &mut Ctx, budget: u32) -> Vec<usize> {
        let mut out = vec![];
        match ctx.below(3) {
            0 => self.derive(ctx, self.start, budget, &mut out),
            // A function.
            1 => {
                out.extend(["int", "identifier", "lparen", "rparen", "lbrace"].map(|w| self.terminal(w)));
                self.derive(ctx, self.names["block-item-list"], budget, &mut out);
                out.push(self.terminal("rbrace"));
            }
            // Several declarations or functions.
            _ => {
                let mut left = budget;
                loop {
                    let part = 1 + ctx.below(left.min(60));
                    self.derive(ctx, self.names["external-declaration"], part, &mut out);
                    left -= part;
                    if left == 0 {
                        break;
                    }
                }
            }
        }
        out
    }
}

// ------------------------------------------------------------------------------------------------------ recogniser

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Item {
    rule: u16,
    dot: u16,
    origin: u32,
}

#[derive(Clone, Default)]
struct Set {
    /// Begun, not complete.
    kernel: Vec<Item>,
    predicted: Vec<bool>,
    viable: Vec<bool>,
    finished: bool,
}

/// Earley's algorithm for a grammar without empty rules.
#[derive(Clone)]
pub struct Reader {
    r: &'static Ref,
    sets: Vec<Set>,
}

impl Reader {
    pub fn new() -> Self {
        let r = reference();
        let mut first = Set { predicted: vec![false; r.min.len()], viable: vec![false; r.terminals.len()], ..Set::default() };
        for &s in &r.closure[r.start] {
            first.predicted[s] = true;
        }
        first.viable.copy_from_slice(&first.predicted[..r.terminals.len()]);
        Reader { r, sets: vec![first] }
    }
    fn last(&self) -> &Set {
        self.sets.last().unwrap()
    }
    pub fn viable(&self, token: usize) -> bool {
        self.last().viable[token]
    }
    pub fn finished(&self) -> bool {
        self.last().finished
    }
    /// Reads a token; false, and no change, if nothing can begin with what has been read.
    pub fn push(&mut self, token: usize) -> bool {
        if !self.viable(token) {
            return false;
        }
        let r = self.r;
        let nt = r.terminals.len();
        let here = self.sets.len() as u32;
        let mut set = Set { predicted: vec![false; r.min.len()], ..Set::default() };
        let mut seen: HashSet<Item> = HashSet::new();
        let mut todo = vec![(token, here - 1)];
        let mut done: HashSet<(usize, u32)> = todo.iter().copied().collect();
        while let Some((sym, origin)) = todo.pop() {
            set.finished |= sym == r.start && origin == 0;
            let from = &self.sets[origin as usize];
            let begun = from.kernel.iter().filter(|i| r.rules[i.rule as usize].1[i.dot as usize] == sym).copied();
            let fresh = r.begins[sym]
                .iter()
                .filter(|&&k| from.predicted[r.rules[k].0])
                .map(|&k| Item { rule: k as u16, dot: 0, origin });
            for i in begun.chain(fresh) {
                let next = Item { dot: i.dot + 1, ..i };
                let (lhs, rhs) = &r.rules[i.rule as usize];
                if next.dot as usize == rhs.len() {
                    if done.insert((*lhs, i.origin)) {
                        todo.push((*lhs, i.origin));
                    }
                } else if seen.insert(next) {
                    set.kernel.push(next);
                    for &s in &r.closure[rhs[next.dot as usize]] {
                        set.predicted[s] = true;
                    }
                }
            }
        }
        set.viable = set.predicted[..nt].to_vec();
        self.sets.push(set);
        true
    }
}

// -------------------------------------------------------------------------------------------------- drawn programs

/// A program, or nearly one.
pub fn draw(ctx: &mut Ctx, r: &Ref) -> Vec<usize> {
    let budget = match ctx.below(4) {
        0 => ctx.range(1, 12),
        1 => ctx.range(8, 40),
        2 => ctx.range(20, 80),
        _ => ctx.range(40, 200),
    };
    // Much of a budget may be lost: the longest of some is taken.
    let mut t = r.program(ctx, budget);
    for _ in 0..budget / 16 {
        let u = r.program(ctx, budget);
        if u.len() > t.len() {
            t = u;
        }
    }
    if ctx.chance(1, 3) {
        for _ in 0..ctx.range(1, 3) {
            let n = t.len() as u32;
            let tok = |ctx: &mut Ctx| ctx.below(r.terminals.len() as u32) as usize;
            match ctx.below(6) {
                0 if n > 0 => {
                    t.remove(ctx.below(n) as usize);
                }
                1 => {
                    let at = ctx.below(n + 1) as usize;
                    let k = tok(ctx);
                    t.insert(at, k);
                }
                2 if n > 0 => {
                    let at = ctx.below(n) as usize;
                    t[at] = tok(ctx);
                }
                3 if n > 1 => {
                    let at = ctx.below(n - 1) as usize;
                    t.swap(at, at + 1);
                }
                4 if n > 0 => {
                    let at = ctx.below(n) as usize;
                    t.insert(at, t[at]);
                }
                5 => t.truncate(ctx.below(n + 1) as usize),
                _ => {}
            }
        }
    }
    t
}

/// Thousands of tokens that have few readings.
pub fn draw_long(ctx: &mut Ctx, r: &Ref) -> Vec<usize> {
    let n = ctx.range(2000, 5000) as usize;
    let mut t = vec![];
    let id = r.terminal("identifier");
    // int f ( void ) { ... }
    t.extend(["int", "identifier", "lparen", "void", "rparen", "lbrace"].map(|w| r.terminal(w)));
    let deep = ctx.chance(1, 2);
    if deep {
        // x = ((((... x ...))));
        t.extend([id, r.terminal("equal")]);
        let depth = n / 3;
        t.extend(std::iter::repeat_n(r.terminal("lparen"), depth));
        t.push(id);
        for _ in 0..depth {
            let op = ["plus", "minus", "slash", "pipe"][ctx.below(4) as usize];
            t.extend([r.terminal("rparen"), r.terminal(op), id]);
        }
        t.push(r.terminal("semicolon"));
    } else {
        while t.len() < n {
            let words: &[&str] = match ctx.below(8) {
                0 => &["identifier", "equal", "identifier", "plus", "constant", "semicolon"],
                1 => &["if_", "lparen", "identifier", "langle", "constant", "rparen", "lbrace", "break_", "semicolon", "rbrace"],
                2 => &["return_", "identifier", "lbracket", "constant", "rbracket", "semicolon"],
                3 => &["while_", "lparen", "constant", "rparen", "inc_op", "identifier", "semicolon"],
                4 => &["int", "star", "identifier", "equal", "ampersand", "identifier", "semicolon"],
                5 => &["identifier", "ptr_op", "identifier", "or_assign", "string_literal", "semicolon"],
                6 => &["do_", "continue_", "semicolon", "while_", "lparen", "identifier", "comma", "constant", "rparen", "semicolon"],
                _ => &["struct_", "identifier", "lbrace", "int", "identifier", "colon", "constant", "semicolon", "rbrace", "semicolon"],
            };
            t.extend(words.iter().map(|w| r.terminal(w)));
        }
    }
    t.push(r.terminal("rbrace"));
    if ctx.chance(1, 4) {
        // Something is wrong near the end.
        let at = t.len() - 1 - ctx.below(20) as usize;
        t[at] = r.terminal("colon");
    }
    t
}
