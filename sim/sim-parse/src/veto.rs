//! R08: refusing fragments and alternatives.

use super::basic::*;
use super::forests::*;
use super::gram::*;
use super::refs::*;
use super::session::*;
use simcore::*;

/// Refusals as a pure function of what is offered, so that the reference and the code under test agree on them
/// without knowing of each other.
#[derive(Clone, Copy, Debug)]
pub struct HashVeto {
    pub seed: u64,
    pub pos: usize,
    /// Out of 256.
    pub frag: u32,
    pub alt: u32,
    /// The forest can tell where the second symbol starts.
    pub splits: bool,
}

impl HashVeto {
    fn h(&self, tag: u64, a: u64, b: u64, c: u64) -> u32 {
        (mix(tag ^ self.seed, mix(self.pos as u64, a, b), c) % 256) as u32
    }
    pub fn whole(&self, sym: usize, origin: usize) -> bool {
        self.h(11, sym as u64, origin as u64, 0) < self.frag
    }
    pub fn one(&self, sym: usize, origin: usize, dot: u32, split: Option<usize>) -> bool {
        let split = if self.splits { split.map_or(0, |s| s as u64 + 1) } else { 0 };
        self.h(12, sym as u64, origin as u64, (dot as u64) << 20 | split) < self.alt
    }
}

impl Veto for HashVeto {
    fn alt(&self, sym: usize, origin: usize, a: &Alt) -> bool {
        self.whole(sym, origin) || self.one(sym, origin, a.dot, a.split)
    }
}

pub fn draw_veto(ctx: &mut Ctx, splits: bool) -> HashVeto {
    HashVeto {
        seed: ctx.below(1 << 16) as u64,
        pos: 0,
        frag: *ctx.pick(&[0, 20, 60, 120]),
        alt: *ctx.pick(&[0, 20, 60, 120]),
        splits,
    }
}

/// How a refused fragment is refused, and how much of a refused sum was already built.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub skip_call: bool,
    /// Refused alternatives of a refused fragment are pushed, but the sum is abandoned.
    pub abandon: bool,
    /// Stop looking at a refused fragment's remaining alternatives is not possible: they would come again.
    pub seed: u64,
}

/// Completes the open position by hand under refusals; counts (fragments refused, alternatives refused, sums abandoned).
pub fn drive(s: &mut Sess, v: &HashVeto, style: Style) -> (bool, [u64; 3]) {
    s.offered.clear();
    let mut n = [0; 3];
    if s.rec.is_exhausted() {
        return (false, n);
    }
    let forest = s.forest.clone();
    let mut rng = style.seed ^ v.pos as u64;
    while let Some(mut group) = s.rec.next_sum() {
        let origin = s.map.get(group.origin() as usize).copied().unwrap_or(usize::MAX);
        let sym = group.symbol().usize();
        let mut off = Offered { sym, origin, alts: vec![] };
        if v.whole(sym, origin) && style.skip_call && splitmix(&mut rng) % 2 == 0 {
            group.skip_entire_sum();
            n[0] += 1;
            off.alts.push((u32::MAX, None));
            s.offered.push(off);
            continue;
        }
        let mut pushed = 0;
        let mut refused = vec![];
        while let Some(item) = group.next_summand() {
            let split = match forest.rec() {
                Some(mut r) => r.item_value(item.dot, item.node.0).and_then(|v| v.2),
                None => None,
            };
            off.alts.push((item.dot, split));
            if v.whole(sym, origin) || v.one(sym, origin, item.dot, split) {
                refused.push(item);
            } else {
                group.push_summand(item);
                pushed += 1;
            }
        }
        if pushed > 0 {
            n[1] += refused.len() as u64;
            group.complete_sum();
        } else {
            n[0] += 1;
            if style.abandon && splitmix(&mut rng) % 2 == 0 {
                let k = 1 + splitmix(&mut rng) as usize % refused.len();
                for item in refused.into_iter().take(k) {
                    group.push_summand(item);
                }
                n[2] += 1;
            }
        }
        s.offered.push(off);
    }
    s.rec.advance_after_completion();
    s.closed();
    (true, n)
}

pub fn r08(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return super::huge::veto_tower(ctx);
    }
    let unambiguous = ctx.chance(1, 4);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let kind = *ctx.pick(&[FKind::Rec, FKind::Rec, FKind::Rec, FKind::Null, FKind::Simple, FKind::Compact]);
    let rec = kind == FKind::Rec;
    let forest = SimForest::new(kind, &g, 64, true);
    if let Some(mut r) = forest.rec() {
        r.abandon_ok = true;
    }
    let mut s = Sess::new(&g, forest);
    let mut r = BRef::before_sof(&g, true);
    let mut v = draw_veto(ctx, rec);
    let style = Style { skip_call: ctx.chance(1, 2), abandon: ctx.chance(1, 2), seed: ctx.below(1 << 16) as u64 };
    // Refusing the start of input leaves nothing; mostly begin the refusals a little later.
    let first = if ctx.chance(1, 20) { 0 } else { 1 + ctx.below(3) as usize };
    let max = 2 + ctx.below(12) as usize;
    let base: Vec<usize> =
        if ctx.chance(3, 4) { g.orig.sentence(ctx, max).into_iter().map(|t| g.term_of(t)).collect() } else { vec![] };
    ev!(ctx, "forest {kind:?} {v:?} {style:?} from {first}");
    let mut refused = 0;
    for i in 0..max + 1 {
        let s1 = ctx.span_start();
        let (offer, junk_first) = if i == 0 {
            (vec![Tok { sym: g.sof_num(), val: 0 }], vec![])
        } else {
            let viable = r.viable();
            let j = if ctx.chance(1, 6) { junk(ctx, &g, &r) } else { vec![] };
            if viable.is_empty() {
                // Everything was refused: nothing may be accepted.
                let mut toks = g.tokens();
                // The end of input is acceptable if the parse is finished here.
                toks.retain(|&t| t != g.eof_num());
                let t = Tok { sym: *ctx.pick(&toks), val: 5 };
                let ok = no_panic("dead end", || {
                    s.begin();
                    s.scan(&t);
                    s.end(How::Auto)
                })?;
                ensure!(!ok, "veto-verdict", "position {}: {t:?} accepted although everything was refused", i);
                ctx.probe("dead-end");
                ctx.span_end(s1);
                return Ok(());
            }
            let main = match base.get(i - 1) {
                Some(&t) if viable.contains(&t) => t,
                _ => *ctx.pick(&viable),
            };
            let mut o = vec![Tok { sym: main, val: i as u32 }];
            if ctx.chance(1, 5) {
                let t = *ctx.pick(&viable);
                if t != main {
                    o.push(Tok { sym: t, val: 100 + i as u32 });
                }
            }
            (o, j)
        };
        v.pos = i;
        let mut veto = v;
        if i < first || ctx.chance(1, 3) {
            veto.frag = 0;
            veto.alt = 0;
        }
        ctx.step();
        let rejected = no_panic("rejected offer", || {
            s.begin();
            if junk_first.is_empty() {
                return false;
            }
            for t in &junk_first {
                s.scan(t);
            }
            s.end(How::Auto)
        })?;
        ensure!(!rejected, "veto-verdict", "position {i}: tokens {junk_first:?} accepted after refusals");
        let (ok, n) = no_panic("closing by hand", || {
            for t in &offer {
                s.scan(t);
            }
            drive(&mut s, &veto, style)
        })?;
        let want = r.step(&offer, &veto);
        refused += n[0] + n[1];
        for (k, name) in [(n[0], "fragment-refused"), (n[1], "alternative-refused"), (n[2], "sum-abandoned")] {
            for _ in 0..k {
                ctx.fired(name);
            }
        }
        ev!(ctx, "position {i} offers {offer:?} after {junk_first:?}: {ok}, refused {n:?}");
        ensure!(ok == want, "veto-verdict", "position {i}: verdict {ok}, expected {want}");
        if let Some(e) = s.forest.error() {
            fail!("forest-protocol", "{e}");
        }
        // Offered fragments: what is not refused must be there, what needs something refused must not.
        let mut got: Vec<(usize, usize, Option<Vec<(u32, Option<usize>)>>)> = s
            .offered
            .iter()
            .map(|f| {
                let mut a = f.alts.clone();
                a.sort();
                (f.sym, f.origin, if a.iter().any(|x| x.0 == u32::MAX) { None } else { Some(a) })
            })
            .collect();
        got.sort();
        let mut exp: Vec<(usize, usize, Vec<(u32, Option<usize>)>)> = r
            .frags
            .iter()
            .map(|f| {
                let mut a: Vec<_> = f.alts.iter().map(|a| (a.dot, if rec { a.split } else { None })).collect();
                a.sort();
                (f.sym, f.origin, a)
            })
            .collect();
        exp.sort();
        let same = got.len() == exp.len()
            && got.iter().zip(&exp).all(|(g, e)| g.0 == e.0 && g.1 == e.1 && g.2.as_ref().map_or(true, |a| *a == e.2));
        ensure!(same, "veto-fragments", "position {i}: offered {} expected {}", short(&got), short(&exp));
        // What follows.
        let fin = r.finished();
        let (obs_pred, obs_med, obs_fin) = no_panic("reports", || {
            let f = s.finished(fin.as_ref().map_or(false, |p| p.c == 1));
            s.begin();
            let p = s.progress();
            (p.pred, p.medial, f)
        })?;
        ensure!(obs_pred == r.predicted(), "veto-predictions", "position {i}: predicted {obs_pred:?}, expected {:?}", r.predicted());
        ensure!(obs_med == r.medial(), "veto-progress", "position {i}: items {obs_med:?}, expected {:?}", r.medial());
        let want_fin = fin.as_ref().map(|p| match kind {
            FKind::Null => "finished".to_string(),
            FKind::Rec => format!("{} {:?}", p.show(), p.t),
            _ => match (&p.t, p.n) {
                (Some(t), 1) => finished_text(&g, t),
                _ => "ambiguous".to_string(),
            },
        });
        ensure!(obs_fin == want_fin, "veto-parse", "position {i}: finished {obs_fin:?}, expected {want_fin:?}");
        if refused > 0 && fin.is_some() {
            ctx.probe("finished-after-refusal");
            ctx.nontrivial = true;
        }
        ctx.span_end(s1);
    }
    Ok(())
}

/// The text that evaluation should give for the tree text of the reference.
pub fn finished_text(g: &TestGrammar, t: &str) -> String {
    let _ = g;
    t.to_string()
}
