//! Token lists for the bundled drivers.

use super::gram::*;
use super::ops::sym;
use super::refs::OrigRef;
use simcore::*;

/// What a list is, as told by the reference: the first token that does not fit, or whether it is a sentence.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Truth {
    Bad(usize),
    Beginning,
    Sentence,
}

pub fn truth(o: &Orig, list: &[usize]) -> Truth {
    let mut r = OrigRef::new(o);
    for (i, &t) in list.iter().enumerate() {
        if !r.step(&[t]) {
            return Truth::Bad(i);
        }
    }
    if r.finished() {
        Truth::Sentence
    } else {
        Truth::Beginning
    }
}

/// A list of original terminals.
pub fn draw_list(ctx: &mut Ctx, o: &Orig) -> Vec<usize> {
    let budget = ctx.below(14) as usize;
    let mut v = if ctx.chance(7, 8) { o.sentence(ctx, budget) } else { vec![] };
    v.truncate(40);
    let term = |ctx: &mut Ctx| o.nt + ctx.below((o.syms() - o.nt) as u32) as usize;
    match ctx.below(8) {
        0 | 1 => {
            let n = ctx.below(v.len() as u32 + 1) as usize;
            v.truncate(n);
        }
        2 => {
            for _ in 0..1 + ctx.below(2) {
                if !v.is_empty() {
                    let i = ctx.below(v.len() as u32) as usize;
                    v[i] = term(ctx);
                }
            }
        }
        3 => {
            let i = ctx.below(v.len() as u32 + 1) as usize;
            let t = term(ctx);
            v.insert(i, t);
        }
        4 => {
            if !v.is_empty() {
                let i = ctx.below(v.len() as u32) as usize;
                v.remove(i);
            }
        }
        _ => {}
    }
    v
}

/// The user's grammar as far as names go.
pub fn named(g: &TestGrammar) -> cfg::Cfg {
    let mut c = cfg::Cfg::new();
    let n = g.ext.iter().max().map_or(0, |m| m + 1);
    for i in 0..n {
        match g.ext.iter().position(|&e| e == i) {
            Some(o) => c.next_sym(Some(format!("s{o}").into())),
            None => c.next_sym(None),
        };
    }
    c
}

/// What each character can be.
pub fn draw_classes(ctx: &mut Ctx, g: &TestGrammar) -> (Vec<(char, usize)>, cfg_load::advanced::AdvancedGrammar) {
    const CHARS: &[char] = &['a', 'b', '0', ' ', 'ß', '–', '𝛼', '\0', '\n'];
    let terms: Vec<usize> = (g.orig.nt..g.orig.syms()).take(24).collect();
    // Classes: at first each character one terminal, then some more.
    let mut classes: Vec<(char, usize)> = terms.iter().enumerate().map(|(i, &t)| (CHARS[i % CHARS.len()], t)).collect();
    for _ in 0..ctx.below(4) {
        let c = *ctx.pick(CHARS);
        let t = *ctx.pick(&terms);
        if !classes.contains(&(c, t)) {
            classes.push((c, t));
        }
    }
    ctx.shuffle(&mut classes[..]);
    let mut map = cfg_load::advanced::LexerMap::default();
    for &(c, t) in &classes {
        map.insert(c, sym(g.ext[t]));
    }
    (classes, cfg_load::advanced::AdvancedGrammar { cfg: named(g), lexer_map: map })
}
