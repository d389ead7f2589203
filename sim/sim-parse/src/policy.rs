//! R12: performance settings.

use super::forests::*;
use super::gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use super::gram::*;
use super::session::*;
use gearley_vec2d::Vec2dCapacity;
use simcore::*;

/// Settings of a user, with or without pruning.
#[derive(Clone, Copy, Debug)]
struct Own<const LOOK: bool> {
    completions: Option<usize>,
    medial: Option<(usize, usize)>,
}

impl<const LOOK: bool> PerfHint for Own<LOOK> {
    const LOOKAHEAD: bool = LOOK;
    const LEO: bool = false;
    type Symbol = cfg_symbol::Symbol;

    fn completion_capacity(&self) -> usize {
        self.completions.unwrap_or(32)
    }
    fn medial_capacity(&self) -> Vec2dCapacity {
        let (chart_capacity, indices_capacity) = self.medial.unwrap_or((512, 128));
        Vec2dCapacity { chart_capacity, indices_capacity }
    }
}

fn draw_own<const LOOK: bool>(ctx: &mut Ctx) -> Own<LOOK> {
    const SIZES: &[usize] = &[0, 1, 2, 3, 7, 33, 1000, 100_000];
    let own = Own {
        completions: if ctx.chance(3, 4) { Some(*ctx.pick(SIZES)) } else { None },
        medial: if ctx.chance(3, 4) { Some((*ctx.pick(SIZES), *ctx.pick(SIZES))) } else { None },
    };
    if own.completions == Some(0) || own.medial.is_some_and(|m| m.0 == 0 || m.1 == 0) {
        ctx.probe("nothing-reserved");
    }
    own
}

fn without_hints(x: &X) -> bool {
    !matches!(x, X::Op(Op::Hint(_) | Op::ClearHint))
}

/// Everything that is observed while a script is made.
fn history<P: PerfHint>(m: &mut Machine<P>, script: &[X], hints: bool) -> R<Vec<XObs>> {
    let mut all = vec![];
    for x in script.iter().filter(|x| hints || without_hints(x)) {
        match m.step(x) {
            Ok(v) => all.extend(v),
            Err(e) => return violation("panic", format!("{x:?}: {e}")),
        }
    }
    Ok(all)
}

fn twins<P: PerfHint>(ctx: &mut Ctx, g: &TestGrammar, kind: FKind, script: &[X], make: impl Fn() -> P) -> R {
    let hints = P::LOOKAHEAD;
    if !hints {
        ctx.probe("no-lookahead");
    }
    let mut a = Machine::made(SimForest::new(kind, g, 64, true), Box::new(|f| Sess::with_policy(g, f, make())));
    let mut b = Machine::new(g, SimForest::new(kind, g, 64, true), 8192);
    // Without lookahead, hints have no effect: as if they were never given.
    let oa = history(&mut a, script, true)?;
    let ob = history(&mut b, script, hints)?;
    compare("settings-visible", &oa, &ob, "with drawn and with default settings")?;
    let mut closed = 0;
    for o in &oa {
        match o {
            XObs::Failed(_) => ctx.fired("forest-callback-panic"),
            XObs::Obs(Obs::End { ok: true, fin }) => {
                closed += 1;
                if fin.is_some() {
                    ctx.probe("finished");
                }
            }
            _ => {}
        }
    }
    ctx.nontrivial = closed >= 3;
    ensure!(a.s.rec.earleme() == b.s.rec.earleme(), "settings-visible", "retained sets: {} and {}", a.s.rec.earleme(), b.s.rec.earleme());
    for m in [a.s.forest.error(), b.s.forest.error()].into_iter().flatten() {
        fail!("forest-protocol", "{m}");
    }
    Ok(())
}

pub fn r12(ctx: &mut Ctx) -> R {
    let unambiguous = ctx.chance(1, 3);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let kind = draw_kind(ctx);
    let mut script = vec![];
    for _ in 0..1 + ctx.below(3) {
        let s0 = ctx.span_start();
        if ctx.chance(1, 3) {
            let fuses = ctx.chance(1, 2);
            script.extend(abandoned(ctx, &g, ScriptOpts { fuses, recreate: true, max_len: 10 }));
        } else {
            script.extend(judged(ctx, &g, 14, true).into_iter().map(|x| X::Op(x.0)));
            script.push(X::Reset);
        }
        ctx.span_end(s0);
    }
    ev!(ctx, "forest {kind:?}:");
    show_script(ctx, &script);
    match ctx.below(4) {
        0 => {
            let own = draw_own::<true>(ctx);
            ev!(ctx, "{own:?}");
            twins(ctx, &g, kind, &script, || own)
        }
        1 => {
            let own = draw_own::<false>(ctx);
            ev!(ctx, "{own:?}");
            twins(ctx, &g, kind, &script, || own)
        }
        2 => {
            let limit = *ctx.pick(&[0, 1, 999, 1000, 1024, 20_000, 499_999, 500_000, 2_000_000, 2_000_001, 3_000_000]);
            ev!(ctx, "limit {limit}");
            twins(ctx, &g, kind, &script, || DefaultPerfHint::new(limit))
        }
        _ => {
            ctx.probe("token-count-and-symbols");
            let limit = *ctx.pick(&[0, 1000, 20_000, 600_000]);
            let tokens = *ctx.pick(&[0, 1, 5, 100, 1_000_000, 1 << 40]);
            let syms = *ctx.pick(&[0, 1, 31, 33, 1000, 1 << 40]);
            ev!(ctx, "limit {limit} tokens {tokens} symbols {syms}");
            twins(ctx, &g, kind, &script, || DefaultPerfHint::with_token_count_and_num_syms(limit, tokens, syms))
        }
    }
}
