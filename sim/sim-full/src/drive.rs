//! D01: the bundled parse driver.

use super::forests::*;
use super::gearley_recognizer::perf_hint::DefaultPerfHint;
use super::gearley_recognizer::Recognizer;
use super::gram::*;
use super::huge;
use super::lists::*;
use super::ops::*;
use super::refs::*;
use gearley_utils::RecognizerParseExt;
use simcore::*;

/// The bundled tables in half of the runs.
fn draw_grammar(ctx: &mut Ctx, opts: &GenOpts) -> TestGrammar {
    let o = gen_orig(ctx, opts);
    let g = if ctx.chance(1, 2) { TestGrammar::prepare_real(o, ctx) } else { TestGrammar::prepare_own(o, ctx) };
    if ctx.tracing() {
        let d = g.describe();
        ctx.note(format_args!("grammar {d}, external {:?}", g.ext));
    }
    g
}

/// `parse_terminal_list`: words that name terminals.
fn words(ctx: &mut Ctx, g: &TestGrammar) -> R {
    for _ in 0..1 + ctx.below(3) {
        ctx.step();
        let list = draw_list(ctx, &g.orig);
        let mut names: Vec<String> = list.iter().map(|t| format!("s{t}")).collect();
        let unknown = ctx.chance(1, 6);
        if unknown {
            let i = ctx.below(names.len() as u32 + 1) as usize;
            names.insert(i, "nobody".into());
            ctx.fired("unknown-word");
        }
        let want = !unknown && truth(&g.orig, &list) == Truth::Sentence;
        let dg = g.default_grammar().unwrap().clone();
        let got = no_panic("parse_terminal_list", || gearley_utils::parse_terminal_list(named(g), dg, names.iter().map(|s| &s[..])))?;
        ev!(ctx, "words {names:?}: {got:?}");
        ensure!(matches!(got, Ok(true)) == want, "words-verdict", "words {names:?} gave {got:?}, sentence: {want}");
        ctx.probe("words");
        ctx.nontrivial = true;
    }
    Ok(())
}

/// `parse_tokenizing`: characters that can be one of several terminals each.
fn characters(ctx: &mut Ctx, g: &TestGrammar) -> R {
    let (classes, loaded) = draw_classes(ctx, g);
    for _ in 0..1 + ctx.below(3) {
        ctx.step();
        let list = draw_list(ctx, &g.orig);
        let mut input: String = list
            .iter()
            .map(|&t| classes.iter().find(|x| x.1 == t).map_or('?', |x| x.0))
            .collect();
        if ctx.chance(1, 10) {
            input.push('?');
        }
        let mut r = OrigRef::new(&g.orig);
        let want = input.chars().all(|c| {
            let set: Vec<usize> = classes.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
            r.step(&set)
        }) && r.finished();
        let dg = g.default_grammar().unwrap().clone();
        let l = loaded.clone();
        let got = no_panic("parse_tokenizing", || gearley_utils::parse_tokenizing(l, dg, &input))?;
        ev!(ctx, "characters {input:?}: {got:?}");
        ensure!(matches!(got, Ok(true)) == want, "characters-verdict", "characters {input:?} gave {got:?}, sentence: {want}");
        ctx.probe("characters");
        ctx.nontrivial = true;
    }
    Ok(())
}

/// Lists longer than two bytes can count.
fn long(ctx: &mut Ctx) -> R {
    let shape = *ctx.pick(&[huge::Nest, huge::Right, huge::Empty, huge::List]);
    let way = ctx.below(4);
    let orig = shape.orig();
    let g = if way >= 2 || ctx.chance(1, 2) { TestGrammar::prepare_real(orig, ctx) } else { TestGrammar::prepare_own(orig, ctx) };
    let kind = *ctx.pick(&[FKind::Null, FKind::Simple, FKind::Compact]);
    let forest = SimForest::new(kind, &g, 64, false);
    let mut rec = Recognizer::with_forest(&g, forest.clone());
    let nt = g.orig.nt;
    ev!(ctx, "long lists of {shape:?} for driver {way}, forest {kind:?}");
    for round in 0..2 {
        let mut list = huge::draw_tokens(ctx, shape, false);
        if ctx.chance(1, 2) && !list.is_empty() {
            let n = list.len();
            let at = match ctx.below(3) {
                0 => ctx.below(n as u32) as usize,
                1 => n - 1,
                _ => (*ctx.pick(&[255usize, 256, 65_534, 65_535, 65_536, 65_537])).min(n - 1),
            };
            list[at] = ctx.below(g.orig.tt as u32) as usize;
        }
        let mut st = huge::Stack::new(shape);
        let mut want = Truth::Beginning;
        for (i, &t) in list.iter().enumerate() {
            if !st.next().contains(&t) {
                want = Truth::Bad(i);
                break;
            }
            st.step(t, i + 1, false);
        }
        if want == Truth::Beginning && st.finished() {
            want = Truth::Sentence;
        }
        let tokens: Vec<_> = list.iter().map(|&t| sym(g.ext[nt + t])).collect();
        ev!(ctx, "round {round}: {} tokens, {want:?}", list.len());
        match way {
            2 => {
                let names: Vec<String> = list.iter().map(|t| format!("s{}", nt + t)).collect();
                let dg = g.default_grammar().unwrap().clone();
                let got = no_panic("parse_terminal_list", || gearley_utils::parse_terminal_list(named(&g), dg, names.iter().map(|s| &s[..])))?;
                ensure!(matches!(got, Ok(true)) == (want == Truth::Sentence), "words-verdict", "{} words gave {got:?}, the truth is {want:?}", names.len());
                ctx.probe("long-words");
            }
            3 => {
                let chars = ['a', '–', '𝛼'];
                let mut map = cfg_load::advanced::LexerMap::default();
                for t in 0..g.orig.tt {
                    map.insert(chars[t], sym(g.ext[nt + t]));
                }
                let loaded = cfg_load::advanced::AdvancedGrammar { cfg: named(&g), lexer_map: map };
                let input: String = list.iter().map(|&t| chars[t]).collect();
                let dg = g.default_grammar().unwrap().clone();
                let got = no_panic("parse_tokenizing", || gearley_utils::parse_tokenizing(loaded, dg, &input))?;
                ensure!(matches!(got, Ok(true)) == (want == Truth::Sentence), "characters-verdict", "{} characters gave {got:?}, the truth is {want:?}", list.len());
                ctx.probe("long-text");
            }
            _ => {
                let got = no_panic("parse", || rec.parse(&tokens))?;
                let ok = match (&got, want) {
                    (Ok(true), Truth::Sentence) | (Ok(false), Truth::Beginning) => true,
                    (Err(e), Truth::Bad(bad)) => {
                        let e = e.to_string();
                        (bad.saturating_sub(1)..=bad).any(|i| e.ends_with(&format!("{:?}@{i}", [tokens[i]])))
                    }
                    _ => false,
                };
                ensure!(ok, "driver-verdict", "round {round}: {} tokens gave {got:?}, the truth is {want:?}", list.len());
                ctx.probe("long-list");
                if want == Truth::Sentence && kind != FKind::Null {
                    let Some(node) = no_panic("finished_node", || rec.finished_node())? else {
                        fail!("driver-node", "round {round}: {} tokens, no finished node", list.len());
                    };
                    let valued: Vec<(usize, u32)> = list.iter().enumerate().map(|(i, &t)| (t, i as u32)).collect();
                    let (value, actions) = huge::tree(shape, &g, &valued);
                    let got = no_panic("evaluation", || huge::evaluate(&forest, node.0, u64::MAX))?;
                    ensure!(got == (vec![value], actions), "driver-value", "round {round}: {} tokens do not evaluate to their tree", list.len());
                    ctx.probe("long-list-evaluated");
                }
                no_panic("reset", || rec.reset())?;
                ctx.fired("reset");
            }
        }
        ctx.step();
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn d01(ctx: &mut Ctx) -> R {
    if ctx.below(2500) == 2499 {
        return long(ctx);
    }
    let unambiguous = ctx.chance(1, 2);
    let g = draw_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    if g.is_real() && ctx.chance(1, 3) {
        if ctx.chance(1, 2) {
            words(ctx, &g)?;
        } else {
            characters(ctx, &g)?;
        }
        return Ok(());
    }
    let kind = *ctx.pick(&[FKind::Null, FKind::Simple, FKind::Compact]);
    let limit = draw_limit(ctx);
    let forest = SimForest::new(kind, &g, 64, true);
    forest.new_session();
    let mut rec = if ctx.chance(1, 2) {
        Recognizer::with_forest(&g, forest.clone())
    } else {
        Recognizer::with_forest_and_policy(&g, forest.clone(), DefaultPerfHint::new(limit))
    };
    let n = 1 + ctx.below(5);
    let mut failed = false;
    for round in 0..n {
        ctx.step();
        let s0 = ctx.span_start();
        let list = draw_list(ctx, &g.orig);
        let tokens: Vec<_> = list.iter().map(|&t| sym(g.ext[t])).collect();
        let fuse = round + 1 < n && ctx.chance(1, 4);
        if fuse {
            let k = 1 + ctx.below(2 * list.len() as u32 + 3);
            let after = ctx.chance(1, 2);
            forest.fuse.arm(k as i64, after);
        }
        let want = truth(&g.orig, &list);
        if list.iter().any(|&t| g.of_orig[t].map_or(true, |s| g.by_rhs0[s].is_empty())) {
            ctx.probe("unused-token");
        }
        let got = guard(|| rec.parse(&tokens));
        forest.fuse.disarm();
        match got {
            Outcome::Panicked(m) => {
                return violation("panic", format!("round {round}: parsing {list:?} (tokens {tokens:?}, {want:?}): {m}"))
            }
            Outcome::Injected(k) => {
                ctx.fired(k);
                ev!(ctx, "round {round}: {list:?}: a callback failed");
                failed = true;
            }
            Outcome::Done(got) => {
                ev!(ctx, "round {round}: {list:?} {want:?}: {got:?}");
                let ok = match (&got, want) {
                    (Ok(true), Truth::Sentence) => true,
                    (Ok(false), Truth::Beginning) => true,
                    // The error names the token and its place; it may come one token early, from the hint.
                    (Err(e), Truth::Bad(bad)) => {
                        let e = e.to_string();
                        (bad.saturating_sub(1)..=bad).any(|i| e.ends_with(&format!("{:?}@{i}", [tokens[i]])))
                    }
                    _ => false,
                };
                ensure!(ok, "driver-verdict", "round {round}: parsing {list:?} (tokens {tokens:?}) gave {got:?}, the truth is {want:?}");
                ctx.probe(match want {
                    Truth::Bad(_) => "parse-error",
                    Truth::Beginning => "proper-beginning",
                    Truth::Sentence => "sentence",
                });
                if failed {
                    ctx.probe("after-a-failure");
                    ctx.nontrivial = true;
                }
                failed |= want != Truth::Sentence;
                if want == Truth::Sentence || want == Truth::Beginning {
                    let node = no_panic("finished_node", || rec.finished_node())?;
                    ensure!(node.is_some() == (want == Truth::Sentence), "driver-node", "round {round}: {list:?} {want:?} has a finished node: {}", node.is_some());
                    if let Some(node) = node {
                        let lattice: Vec<Vec<Tok>> = list
                            .iter()
                            .enumerate()
                            .map(|(i, &t)| vec![Tok { sym: g.of_orig[t].unwrap(), val: i as u32 }])
                            .collect();
                        let p = Trees::new(&g, &lattice, true).whole();
                        if let (Some(t), true) = (&p.t, kind != FKind::Null) {
                            let text = no_panic("evaluation", || forest.describe(node.0, true))?;
                            ensure!(text == **t, "driver-value", "round {round}: {list:?} evaluates to {text}, expected {t}");
                            ctx.probe("evaluated");
                        }
                    }
                }
            }
        }
        no_panic("reset", || {
            rec.reset();
            forest.new_session();
        })?;
        ctx.fired("reset");
        ctx.span_end(s0);
    }
    Ok(())
}
