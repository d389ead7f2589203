//! What the texts mean: the reference, and drawing of texts.

use simcore::Ctx;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Precedenced,
    Ambiguous,
}

impl Kind {
    pub fn alphabet(self) -> &'static [char] {
        const ALL: &[char] = &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '-', '*', '/', '(', ')'];
        match self {
            Kind::Precedenced => ALL,
            Kind::Ambiguous => &ALL[..14],
        }
    }
}

// -------------------------------------------------------------------------------------------- which texts are fine

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Last {
    /// Nothing, an operator or an opening parenthesis.
    Open,
    Digit,
    Closing,
}

/// The states that the readings of the text so far lead to.
#[derive(Clone, Debug)]
pub struct Machine(BTreeSet<(usize, Last)>);

impl Machine {
    pub fn new(_kind: Kind) -> Self {
        Machine([(0, Last::Open)].into())
    }
    /// Reads a key that stands for any of these characters; false, and no change, if none fits.
    pub fn key(&mut self, key: &[char]) -> bool {
        let mut next = BTreeSet::new();
        for &(depth, last) in &self.0 {
            for &c in key {
                let open = last == Last::Open;
                match c {
                    '(' if open => next.insert((depth + 1, Last::Open)),
                    ')' if !open && depth > 0 => next.insert((depth - 1, Last::Closing)),
                    '0'..='9' if last != Last::Closing => next.insert((depth, Last::Digit)),
                    '+' | '-' | '*' | '/' if !open => next.insert((depth, Last::Open)),
                    _ => false,
                };
            }
        }
        if next.is_empty() {
            return false;
        }
        self.0 = next;
        true
    }
    pub fn sentence(&self) -> bool {
        self.0.iter().any(|&(depth, last)| depth == 0 && last != Last::Open)
    }
}

// --------------------------------------------------------------------------------------------- what they evaluate to

fn apply(op: char, a: i32, b: i32) -> Option<i32> {
    match op {
        '+' => a.checked_add(b),
        '-' => a.checked_sub(b),
        '*' => a.checked_mul(b),
        _ => a.checked_div(b),
    }
}

fn number(digits: &[char]) -> Option<i32> {
    digits.iter().try_fold(0i32, |n, c| n.checked_mul(10)?.checked_add(*c as i32 - '0' as i32))
}

/// Shunting yard.
fn precedenced(text: &[char]) -> Option<i32> {
    let level = |c: char| match c {
        '(' => 0,
        '+' | '-' => 1,
        _ => 2,
    };
    let mut ops: Vec<char> = vec![];
    let mut out: Vec<i32> = vec![];
    fn fold(ops: &mut Vec<char>, out: &mut Vec<i32>) -> Option<()> {
        let b = out.pop()?;
        let a = out.pop()?;
        out.push(apply(ops.pop()?, a, b)?);
        Some(())
    }
    let mut i = 0;
    while i < text.len() {
        match text[i] {
            '0'..='9' => {
                let j = i;
                while i < text.len() && text[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(number(&text[j..i])?);
                continue;
            }
            '(' => ops.push('('),
            ')' => {
                while *ops.last()? != '(' {
                    fold(&mut ops, &mut out)?;
                }
                ops.pop();
            }
            op => {
                while ops.last().map_or(false, |&o| level(o) >= level(op)) {
                    fold(&mut ops, &mut out)?;
                }
                ops.push(op);
            }
        }
        i += 1;
    }
    while !ops.is_empty() {
        fold(&mut ops, &mut out)?;
    }
    out.pop()
}

/// The value of every bracketing; None if one of them can't be computed or there are too many.
fn bracketings(text: &[char], limit: usize) -> Option<Vec<i32>> {
    let mut nums = vec![];
    let mut ops = vec![];
    for part in text.split_inclusive(|c| !c.is_ascii_digit()) {
        let digits: Vec<char> = part.iter().copied().filter(|c| c.is_ascii_digit()).collect();
        nums.push(number(&digits)?);
        if let Some(c) = part.last().filter(|c| !c.is_ascii_digit()) {
            ops.push(*c);
        }
    }
    let n = nums.len();
    // v[len][start]
    let mut v: Vec<Vec<Vec<i32>>> = vec![vec![], nums.iter().map(|&x| vec![x]).collect()];
    for len in 2..=n {
        let mut row = vec![];
        for start in 0..=n - len {
            let mut all = vec![];
            for left in 1..len {
                let op = ops[start + left - 1];
                for &a in &v[left][start] {
                    for &b in &v[len - left][start + left] {
                        all.push(apply(op, a, b)?);
                    }
                }
                if all.len() > limit {
                    return None;
                }
            }
            row.push(all);
        }
        v.push(row);
    }
    Some(v.pop()?.pop()?)
}

/// All values of a text whose keys can be read in several ways, in no particular order. None if one of them does not
/// exist or there are more than `limit`.
pub fn values(kind: Kind, keys: &[Vec<char>], limit: usize) -> Option<Vec<i32>> {
    let mut readings: Vec<(Machine, Vec<char>)> = vec![(Machine::new(kind), vec![])];
    for k in keys {
        if k.len() == 1 {
            for (_, text) in &mut readings {
                text.push(k[0]);
            }
            readings.retain_mut(|r| r.0.key(k));
            continue;
        }
        let mut next = vec![];
        for (m, text) in &readings {
            for &c in k {
                let mut m = m.clone();
                if m.key(&[c]) {
                    let mut t = text.clone();
                    t.push(c);
                    next.push((m, t));
                }
            }
        }
        if next.len() > limit {
            return None;
        }
        readings = next;
    }
    let mut out = vec![];
    for (m, text) in readings {
        if m.sentence() {
            match kind {
                Kind::Precedenced => out.push(precedenced(&text)?),
                Kind::Ambiguous => out.extend(bracketings(&text, limit)?),
            }
        }
        if out.len() > limit {
            return None;
        }
    }
    Some(out)
}

// --------------------------------------------------------------------------------------------------- drawing of texts

fn draw_number(ctx: &mut Ctx, out: &mut Vec<char>) {
    let n = 1 + ctx.weighted(&[6, 4, 3, 1, 1, 1, 1]);
    for _ in 0..n {
        out.push(*ctx.pick(&Kind::Ambiguous.alphabet()[..10]));
    }
}

fn draw_sum(ctx: &mut Ctx, kind: Kind, depth: u32, out: &mut Vec<char>) {
    let n = 1 + ctx.below(if depth == 0 { 6 } else { 3 });
    for i in 0..n {
        if i > 0 {
            let op = ctx.weighted(&[3, 3, 3, 2]);
            out.push(['+', '-', '*', '/'][op]);
        }
        if kind == Kind::Precedenced && depth < 4 && ctx.chance(1, 4) {
            out.push('(');
            draw_sum(ctx, kind, depth + 1, out);
            out.push(')');
        } else {
            draw_number(ctx, out);
        }
    }
}

pub fn draw_keys(ctx: &mut Ctx, kind: Kind) -> Vec<Vec<char>> {
    let mut text = vec![];
    draw_sum(ctx, kind, 0, &mut text);
    match ctx.below(8) {
        0 => text.truncate(ctx.below(text.len() as u32 + 1) as usize),
        1 => {
            let i = ctx.below(text.len() as u32 + 1) as usize;
            let c = *ctx.pick(kind.alphabet());
            text.insert(i, c);
        }
        2 => {
            let i = ctx.below(text.len() as u32) as usize;
            text[i] = *ctx.pick(kind.alphabet());
        }
        3 => {
            let i = ctx.below(text.len() as u32) as usize;
            text.remove(i);
        }
        _ => {}
    }
    let mut keys: Vec<Vec<char>> = text.into_iter().map(|c| vec![c]).collect();
    if !keys.is_empty() && ctx.chance(1, 4) {
        for _ in 0..1 + ctx.below(3) {
            let i = ctx.below(keys.len() as u32) as usize;
            let c = *ctx.pick(kind.alphabet());
            if !keys[i].contains(&c) {
                keys[i].push(c);
            }
        }
    }
    keys
}

/// More keys than two bytes can count.
pub fn draw_long(ctx: &mut Ctx) -> Vec<Vec<char>> {
    let n = *ctx.pick(&[300usize, 32_768, 33_000, 65_536, 66_000]);
    let mut t: Vec<char> = vec![];
    match ctx.below(4) {
        // A sum of small terms.
        0 => {
            for i in 0..n {
                if i > 0 {
                    t.push(if ctx.chance(1, 2) { '+' } else { '-' });
                }
                t.push(*ctx.pick(&Kind::Ambiguous.alphabet()[..10]));
            }
        }
        // Nesting.
        1 => {
            t.extend(std::iter::repeat_n('(', n));
            t.push('7');
            for i in 0..n {
                t.push(')');
                if i % 1000 == 17 {
                    t.extend(['-', '5']);
                }
            }
        }
        // Leading zeros.
        2 => {
            t.extend(std::iter::repeat_n('0', n));
            t.extend("4711".chars());
        }
        // A product of ones and quotients.
        _ => {
            t.push('9');
            for _ in 0..n {
                t.push(if ctx.chance(1, 2) { '*' } else { '/' });
                t.push('1');
            }
        }
    }
    t.into_iter().map(|c| vec![c]).collect()
}
