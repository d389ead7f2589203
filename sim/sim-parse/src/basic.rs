//! Scenarios of the recognizer's verdicts, reports and completions.

use super::forests::*;
use super::gram::*;
use super::huge::*;
use super::refs::*;
use super::session::*;
use simcore::*;

// ----------------------------------------------------------------------------------------------------------- R06

/// Verdicts against an independent recognizer on the user's grammar.
pub fn r06(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { rejects: true, mixed: true, queries: true, resets: true, ..Default::default() });
    }
    let long = ctx.chance(1, 10);
    let grow = long && ctx.chance(1, 6);
    let unambiguous = long && (grow || ctx.chance(2, 3));
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let max_len = if grow { 900 } else if long { 50 } else { 14 };
    let mut plan = gen_plan(ctx, &g, PlanOpts { max_len, grow, ..Default::default() });
    if plan.poss.is_empty() && !g.start_nullable {
        plan.bad_end = None;
    }
    show_plan(ctx, &plan);
    let kind = if ctx.chance(1, 2) { FKind::Null } else { FKind::Rec };
    let limit = draw_limit(ctx);
    let mut s = Sess::with_limit(&g, SimForest::new(kind, &g, 64, false), limit);
    let sessions = 1 + ctx.below(8) / 6;
    let g = &g;
    for round in 0..sessions {
        if round > 0 {
            s.reset();
            ctx.fired("reset");
        }
        let cut = if round + 1 < sessions { ctx.below(plan.poss.len() as u32 + 1) as usize } else { plan.poss.len() };
        let mut orig = OrigRef::new(&g.orig);
        let manual = ctx.below(3);
        let fin = no_panic("is_finished", || s.rec.is_finished())?;
        ensure!(fin == g.start_nullable, "finished", "before the first position: finished {fin}, expected {}", g.start_nullable);
        no_panic("start", || s.begin())?;
        let sof = Tok { sym: g.sof_num(), val: 0 };
        let how = draw_how(ctx, manual);
        let ok = no_panic("closing", || {
            s.scan(&sof);
            s.end(how)
        })?;
        ensure!(ok, "verdict", "start of input rejected");
        let fin = no_panic("is_finished", || s.rec.is_finished())?;
        ensure!(fin == orig.finished(), "finished", "after the start of input: finished {fin}, expected {}", orig.finished());
        let mut at = 0;
        while at <= cut {
            let p = plan.poss.get(at).filter(|_| at < cut);
            let toks_sets: Vec<(Vec<Tok>, bool)> = match p {
                Some(p) => p.rejects.iter().map(|r| (r.clone(), false)).chain([(p.offer.clone(), true)]).collect(),
                None => plan.bad_end.iter().filter(|_| cut == plan.poss.len()).map(|b| (b.clone(), false)).collect(),
            };
            for (toks, _) in toks_sets {
                ctx.step();
                let how = draw_how(ctx, manual);
                let q = if ctx.chance(1, 6) {
                    ctx.fired("query");
                    ctx.below(32)
                } else {
                    0
                };
                let ok = no_panic("closing a position", || {
                    s.begin();
                    s.query(q);
                    for t in &toks {
                        s.scan(t);
                    }
                    s.query(q);
                    s.end(how)
                })?;
                let ot: Vec<usize> = toks.iter().map(|t| g.orig_of(t.sym)).filter(|&t| t != usize::MAX).collect();
                let want = orig.step(&ot);
                ev!(ctx, "offer {toks:?} {how:?}: {ok}");
                ensure!(ok == want, "verdict", "offer {toks:?} at position {}: said {ok}, expected {want}", at + 1);
                if !ok {
                    ctx.fired("rejected-offer");
                    continue;
                }
                let fin = no_panic("is_finished", || s.rec.is_finished())?;
                ensure!(fin == orig.finished(), "finished", "after position {}: finished {fin}, expected {}", at + 1, orig.finished());
                if fin {
                    ctx.probe("finished");
                    ctx.nontrivial = true;
                }
                if s.map.len() > 8 {
                    ctx.probe("more-than-8-sets");
                }
                if s.map.len() > 256 {
                    ctx.probe("more-than-256-sets");
                }
                if s.rec.earleme() + 2 < s.pos {
                    ctx.probe("compacted");
                }
            }
            at += 1;
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------------------------------------------- R02

pub fn r02(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { rejects: true, relative: true, ..Default::default() });
    }
    let g = gen_grammar(ctx, &GenOpts::default());
    let plan = gen_plan(ctx, &g, PlanOpts::default());
    let kind = draw_kind(ctx);
    let manual = ctx.below(3);
    // The same ways of closing in both sessions, so that offered fragments are comparable.
    let mut with = plan_ops(ctx, &g, &plan, OpOpts { rejects: true, queries: false, manual, bad_end: true });
    if ctx.chance(1, 2) {
        with = add_hints(ctx, &g, &plan, with);
        // Some hints come only after the refused offers.
        for i in 0..with.len() {
            if matches!(with[i].0, Op::Hint(_)) && ctx.chance(1, 3) {
                let end = with[i..].iter().position(|x| x.1 == Some(true)).unwrap_or(0);
                let refused = with[i..i + end].iter().rposition(|x| x.1 == Some(false));
                if let Some(n) = refused {
                    with[i..=i + n].rotate_left(1);
                }
            }
        }
    }
    let mut without: Vec<(Op, Option<bool>)> = vec![];
    for (op, e) in &with {
        match op {
            Op::End { .. } if *e == Some(false) => {
                // Drop the attempt: everything back to its first scan.
                while matches!(without.last(), Some((Op::Scan(_), _))) {
                    without.pop();
                }
            }
            _ => without.push((op.clone(), *e)),
        }
    }
    log_ops(ctx, &with);
    let n = with.iter().filter(|x| x.1 == Some(false)).count();
    for _ in 0..n {
        ctx.fired("rejected-offer");
    }
    ctx.nontrivial = n > 0 && plan.poss.len() > 1;
    let mut a = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let mut b = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let oa = no_panic("session with rejected offers", || a.exec_all(&with))?;
    let ob = no_panic("session without rejected offers", || b.exec_all(&without))?;
    let oa: Vec<Obs> = drop_rejected(oa);
    compare("rejection-visible", &oa, &ob, "with and without rejected offers")?;
    if let Some(e) = a.forest.error() {
        fail!("forest-protocol", "{e}");
    }
    // Continue on both, offering once more: a session that was rejected last must still go on.
    Ok(())
}

fn drop_rejected(v: Vec<Obs>) -> Vec<Obs> {
    let mut out: Vec<Obs> = vec![];
    for o in v {
        match o {
            Obs::End { ok: false, .. } => {
                // The (empty) list of fragments of a closing by hand goes with it.
                if let Some(Obs::Offered(f)) = out.last() {
                    if f.is_empty() {
                        out.pop();
                    }
                }
            }
            o => out.push(o),
        }
    }
    out
}

// ----------------------------------------------------------------------------------------------------------- R03

fn as_sets(v: Vec<Obs>) -> Vec<Obs> {
    v.into_iter()
        .map(|o| match o {
            Obs::Progress(p) => Obs::Progress(p.dedup()),
            Obs::Offered(mut f) => {
                for x in &mut f {
                    x.alts.sort();
                    x.alts.dedup();
                }
                f.sort();
                f.dedup();
                Obs::Offered(f)
            }
            Obs::End { ok, fin } => Obs::End { ok, fin: fin.map(|_| String::new()) },
        })
        .collect()
}

pub fn r03(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { mixed: true, relative: true, ..Default::default() });
    }
    let g = gen_grammar(ctx, &GenOpts::default());
    let plan = gen_plan(ctx, &g, PlanOpts { junk_in_offers: false, max_len: 10, ..Default::default() });
    let dup = ctx.chance(1, 2);
    let mut other = plan.clone();
    let mut r = BRef::new(&g, false);
    let mut budget = 3;
    for p in &mut other.poss {
        let s = ctx.span_start();
        let before = p.offer.clone();
        if dup && budget > 0 && ctx.chance(1, 3) {
            let t = ctx.pick(&before).clone();
            p.offer.push(t);
            ctx.fired("duplicated-token");
            budget -= 1;
        }
        if ctx.chance(1, 3) {
            let j = junk(ctx, &g, &r);
            if !j.is_empty() {
                ctx.fired("unacceptable-token-mixed-in");
            }
            p.offer.extend(j);
        }
        ctx.shuffle(&mut p.offer[..]);
        if p.offer[..].iter().map(|t| t.sym).ne(before.iter().map(|t| t.sym)) {
            ctx.fired("reordered-tokens");
            ctx.nontrivial = true;
        }
        ctx.span_end(s);
        r.step(&before, &NoVeto);
    }
    // Duplicates make every derivation of theirs count twice, which the Null forest does not see.
    let kind = if dup { FKind::Null } else { *ctx.pick(&[FKind::Rec, FKind::Null]) };
    let manual = ctx.below(3);
    let mut ops_a = plan_ops(ctx, &g, &plan, OpOpts { rejects: false, queries: false, manual, bad_end: true });
    if ctx.chance(1, 3) {
        ops_a = add_hints(ctx, &g, &plan, ops_a);
    }
    // Same closing style in both.
    let mut styles = ops_a.iter().filter_map(|(o, _)| match o {
        Op::End { how, .. } => Some(*how),
        _ => None,
    });
    let mut ops_b: Vec<(Op, Option<bool>)> = vec![];
    let mut it = other.poss.iter();
    let mut next: Option<&Pos> = None;
    let mut replaced = false;
    let mut first = true;
    for (op, e) in &ops_a {
        match op {
            Op::Begin => {
                ops_b.push((op.clone(), *e));
                if !first {
                    next = it.next();
                }
                first = false;
            }
            Op::Scan(_) if replaced => {}
            Op::Scan(_) if next.is_some() => {
                for t in &next.take().unwrap().offer {
                    ops_b.push((Op::Scan(t.clone()), None));
                }
                replaced = true;
            }
            Op::End { unamb, .. } => {
                let how = styles.next().unwrap();
                ops_b.push((Op::End { how, unamb: *unamb }, *e));
                replaced = false;
            }
            _ => ops_b.push((op.clone(), *e)),
        }
    }
    log_ops(ctx, &ops_a);
    ev!(ctx, "other order:");
    log_ops(ctx, &ops_b);
    let mut a = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let mut b = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let oa = no_panic("session in first order", || a.exec_all(&ops_a))?;
    let ob = no_panic("session in other order", || b.exec_all(&ops_b))?;
    if kind == FKind::Rec {
        compare("order-visible", &oa, &ob, "tokens in two orders")?;
    }
    compare("order-visible", &as_sets(oa), &as_sets(ob), "tokens in two orders")
}

// ----------------------------------------------------------------------------------------------------------- R04

pub fn r04(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { hints: true, relative: true, ..Default::default() });
    }
    let unambiguous = ctx.chance(1, 3);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let plan = gen_plan(
        ctx,
        &g,
        PlanOpts { alternatives: false, junk_in_offers: false, rejects: false, texts: false, ..Default::default() },
    );
    // The stream: tokens of the plan, then perhaps one that does not fit (and one more after it).
    let mut toks: Vec<Tok> = plan.poss.iter().map(|p| p.offer[0].clone()).collect();
    let good = toks.len();
    let mut r = BRef::new(&g, false);
    for t in &toks {
        r.step(&[t.clone()], &NoVeto);
    }
    if ctx.chance(1, 3) {
        let terms = g.terminals();
        let pred = r.predicted();
        let bad: Vec<usize> = terms.into_iter().filter(|&t| !pred.contains(&(t as u32))).collect();
        if !bad.is_empty() {
            toks.push(Tok { sym: *ctx.pick(&bad), val: 77 });
        }
    }
    let kind = draw_kind(ctx);
    let unamb_end = |p: Option<&Pos>| p.map_or(false, |p| p.fin.as_ref().map_or(false, |f| f.c == 1));
    // Without hints.
    let mut a = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let sof = Tok { sym: g.sof_num(), val: 0 };
    let mut accepted_a = 0;
    no_panic("unhinted session", || {
        a.begin();
        a.scan(&sof);
        a.end(How::Auto);
        for t in &toks {
            a.begin();
            a.scan(t);
            if !a.end(How::Auto) {
                break;
            }
            accepted_a += 1;
        }
    })?;
    ensure!(accepted_a == good, "unhinted-verdict", "without hints {accepted_a} tokens accepted, expected {good}");
    let unamb = unamb_end(plan.poss.last());
    let fin_a = no_panic("finished node", || if accepted_a == toks.len() { a.finished(unamb) } else { None })?;
    // With hints, some lost, cleared or overwritten.
    let manual = ctx.below(3);
    let eof_hint = ctx.chance(1, 2);
    let lossy = ctx.chance(1, 2);
    let mut b = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let wrong: Vec<usize> = g.tokens();
    let mut accepted_b = 0;
    let mut stopped = false;
    for i in 0..toks.len() + 1 {
        // Token i - 1 is read now (start of input first); token i follows.
        let t = if i == 0 { sof.clone() } else { toks[i - 1].clone() };
        let next = match toks.get(i) {
            Some(n) => Some(n.sym),
            None if eof_hint => Some(g.eof_num()),
            None => None,
        };
        ctx.step();
        let how = draw_how(ctx, manual);
        let mut pre: Vec<Option<usize>> = vec![];
        let mut post: Vec<Option<usize>> = vec![];
        if let Some(n) = next {
            if lossy && ctx.fault("hint-lost", 1, 4) {
            } else if lossy && ctx.fault("hint-overwritten", 1, 6) {
                // A wrong hint that is replaced before any token is read.
                pre.push(Some(*ctx.pick(&wrong)));
                pre.push(if ctx.chance(1, 2) { Some(n) } else { None });
            } else if lossy && ctx.fault("hint-cleared", 1, 6) {
                pre.push(Some(n));
                post.push(None);
            } else if lossy && ctx.fault("hint-late", 1, 6) {
                post.push(Some(n));
            } else if lossy && ctx.fault("hint-twice", 1, 6) {
                pre.push(Some(n));
                post.push(Some(n));
            } else {
                pre.push(Some(n));
                ctx.fired("hint");
            }
        }
        // Tokens that do not fit, offered first while the hint is pending.
        let mut noise = vec![];
        if i > 0 && i <= good && ctx.chance(1, 6) {
            let mut r = BRef::new(&g, false);
            for t in &toks[..i - 1] {
                r.step(&[t.clone()], &NoVeto);
            }
            noise = junk(ctx, &g, &r);
            if !noise.is_empty() {
                ctx.fired("rejected-offer");
            }
        }
        ev!(ctx, "read {t:?} hints before {pre:?} after {post:?} noise {noise:?} {how:?}");
        let (noise_ok, ok) = no_panic("hinted session", || {
            b.begin();
            let apply = |b: &mut Sess, h: &[Option<usize>]| {
                for x in h {
                    match x {
                        Some(s) => b.exec(&Op::Hint(*s)),
                        None => b.exec(&Op::ClearHint),
                    };
                }
            };
            apply(&mut b, &pre);
            let mut noise_ok = false;
            if !noise.is_empty() {
                for n in &noise {
                    b.scan(n);
                }
                noise_ok = b.end(how);
            }
            if noise_ok {
                return (true, true);
            }
            b.scan(&t);
            apply(&mut b, &post);
            (noise_ok, b.end(how))
        })?;
        ensure!(!noise_ok, "hinted-verdict", "token(s) {noise:?} that cannot follow were accepted under a hint");
        if !ok {
            stopped = true;
            break;
        }
        if i > 0 {
            accepted_b += 1;
        }
    }
    if let Some(e) = b.forest.error() {
        fail!("forest-protocol", "{e}");
    }
    if good == toks.len() {
        // The whole stream is acceptable.
        if stopped {
            // Only the end of input may be hinted falsely: at a position that is not finished.
            ensure!(
                eof_hint && fin_a.is_none() && accepted_b + 1 >= good,
                "hinted-verdict",
                "with truthful hints only {accepted_b} of {good} tokens were accepted"
            );
            return Ok(());
        }
        let fin_b = no_panic("finished node", || b.finished(unamb))?;
        ensure!(fin_a == fin_b, "hinted-parse", "parse without hints {fin_a:?}, with hints {fin_b:?}");
        if fin_a.is_some() {
            ctx.probe("finished");
            ctx.nontrivial = good > 0;
        }
    } else {
        ensure!(
            stopped && (accepted_b == good || accepted_b + 1 == good || (good == 0 && accepted_b == 0)),
            "hinted-verdict",
            "{good} tokens fit; with hints {accepted_b} were accepted, stopped {stopped}"
        );
        ctx.probe("error");
        ctx.nontrivial = good > 1;
    }
    Ok(())
}

// ----------------------------------------------------------------------------------------------------------- R07

pub fn r07(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { rejects: true, queries: true, resets: true, fragments: true, ..Default::default() });
    }
    let grow = ctx.chance(1, 80);
    let g = gen_grammar(ctx, &GenOpts { unambiguous: grow, ..Default::default() });
    let plan = gen_plan(ctx, &g, PlanOpts { max_len: if grow { 900 } else { 12 }, grow, ..Default::default() });
    if plan.poss.len() > 256 {
        ctx.probe("more-than-256-positions");
    }
    show_plan(ctx, &plan);
    let mut reference: Vec<Frag> = vec![];
    {
        let r = BRef::new(&g, false);
        reference.extend(r.frags.iter().cloned());
    }
    let kind = if ctx.chance(3, 4) { FKind::Rec } else { draw_kind(ctx) };
    let mut hand = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let mut auto = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let mut mixed = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let sof = Pos { rejects: vec![], offer: vec![Tok { sym: g.sof_num(), val: 0 }], fin: None, pred: vec![], medial: vec![], frags: reference };
    for (i, p) in std::iter::once(&sof).chain(plan.poss.iter()).enumerate() {
        ctx.step();
        let how = draw_how(ctx, 2);
        let unamb = p.fin.as_ref().map_or(false, |f| f.c == 1);
        let (oh, oa, om) = no_panic("closing a position", || {
            let mut all = vec![];
            for (s, how) in [(&mut hand, How::Manual(0)), (&mut auto, How::Auto), (&mut mixed, how)] {
                let mut o = s.exec(&Op::Begin);
                for r in &p.rejects {
                    for t in r {
                        s.scan(t);
                    }
                    if s.end(how) {
                        o.push(Obs::End { ok: true, fin: Some("unexpected".into()) });
                    }
                }
                for t in &p.offer {
                    s.scan(t);
                }
                let ok = s.end(how);
                let fin = if ok { s.finished(unamb) } else { None };
                o.push(Obs::End { ok, fin });
                all.push(o);
            }
            let m = all.pop().unwrap();
            let a = all.pop().unwrap();
            (all.pop().unwrap(), a, m)
        })?;
        for s in [&hand, &auto, &mixed] {
            if let Some(e) = s.forest.error() {
                fail!("forest-protocol", "{e}");
            }
        }
        compare("drive-visible", &oh, &oa, "by hand and automatic")?;
        compare("drive-visible", &om, &oa, "mixed and automatic")?;
        if !matches!(oa.last(), Some(Obs::End { ok: true, .. })) {
            // A wrong verdict is another property's business.
            return Ok(());
        }
        // Order: inner fragments first.
        for s in [&hand, &mixed] {
            let mut last = usize::MAX;
            for f in &s.offered {
                ensure!(
                    f.origin <= last,
                    "completion-order",
                    "position {}: symbol {} from {} offered after one from {last}",
                    i + 1,
                    f.sym,
                    f.origin
                );
                last = f.origin;
            }
        }
        let mut got: Vec<Offered> = hand.offered.clone();
        for f in &mut got {
            f.alts.sort();
        }
        got.sort();
        let splits = kind == FKind::Rec;
        let mut want: Vec<Offered> = p
            .frags
            .iter()
            .map(|f| {
                let mut alts: Vec<_> = f.alts.iter().map(|a| (a.dot, if splits { a.split } else { None })).collect();
                alts.sort();
                Offered { sym: f.sym, origin: f.origin, alts }
            })
            .collect();
        want.sort();
        if want.iter().any(|f| f.alts.len() > 1) {
            ctx.probe("ambiguous-fragment");
            ctx.nontrivial = true;
        }
        if want.len() > 8 {
            ctx.probe("many-fragments");
        }
        ev!(ctx, "position {} fragments {}", i + 1, want.len());
        for w in got.windows(2) {
            ensure!(
                (w[0].sym, w[0].origin) != (w[1].sym, w[1].origin),
                "offered-twice",
                "position {}: symbol {} from {} offered twice",
                i + 1,
                w[0].sym,
                w[0].origin
            );
        }
        ensure!(got == want, "offered-set", "position {}: offered {} expected {}", i + 1, short(&got), short(&want));
    }
    Ok(())
}

// ----------------------------------------------------------------------------------------------------------- R10

pub fn r10(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { queries: true, reports: true, ..Default::default() });
    }
    let grow = ctx.chance(1, 80);
    let g = gen_grammar(ctx, &GenOpts { unambiguous: grow, ..Default::default() });
    let plan = gen_plan(ctx, &g, PlanOpts { max_len: if grow { 900 } else { 12 }, grow, ..Default::default() });
    if plan.poss.len() > 256 {
        ctx.probe("more-than-256-positions");
    }
    let ops = plan_ops(ctx, &g, &plan, OpOpts { rejects: true, queries: true, manual: 2, bad_end: true });
    log_ops(ctx, &ops);
    let kind = if ctx.chance(1, 2) { FKind::Null } else { FKind::Rec };
    let mut a = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let mut b = Sess::new(&g, SimForest::new(kind, &g, 64, false));
    let quiet: Vec<_> = ops.iter().filter(|x| !matches!(x.0, Op::Query(_))).cloned().collect();
    for _ in 0..ops.len() - quiet.len() {
        ctx.fired("query");
    }
    if ctx.chance(1, 4) {
        // Reports must not depend on an earlier session either.
        no_panic("first session", || {
            a.exec_all(&ops);
            a.reset();
        })?;
        ctx.fired("reset");
    }
    let oa = no_panic("session with queries", || a.exec_all(&ops))?;
    let ob = no_panic("session without queries", || b.exec_all(&quiet))?;
    compare("query-visible", &oa, &ob, "with and without queries")?;
    // Exactness: the progress after each accepted position, the first being that before the start of input.
    let mut exp: Vec<(Vec<u32>, Vec<(u32, usize)>)> = vec![];
    let r0 = BRef::before_sof(&g, false);
    exp.push((r0.predicted(), r0.medial()));
    let r1 = BRef::new(&g, false);
    exp.push((r1.predicted(), r1.medial()));
    for p in &plan.poss {
        exp.push((p.pred.clone(), p.medial.clone()));
    }
    let mut orig = OrigRef::new(&g.orig);
    let progresses: Vec<&Progress> = oa
        .iter()
        .filter_map(|o| match o {
            Obs::Progress(p) => Some(p),
            _ => None,
        })
        .collect();
    for (i, (p, (pred, medial))) in progresses.iter().zip(&exp).enumerate() {
        ctx.probe("report");
        ensure!(&p.pred == pred, "predicted", "position {i}: predicted {:?}, expected {:?}", p.pred, pred);
        ensure!(&p.medial == medial, "in-progress", "position {i}: items {:?}, expected {:?}", p.medial, medial);
        if i >= 1 {
            if i >= 2 {
                let toks: Vec<usize> = plan.poss[i - 2].offer.iter().map(|t| g.orig_of(t.sym)).filter(|&t| t != usize::MAX).collect();
                orig.step(&toks);
            }
            for t in g.terminals() {
                let want = orig.accepts(g.orig_of(t));
                let got = p.pred.contains(&(t as u32));
                ensure!(got == want, "predicted-terminal", "position {i}: terminal {t} predicted {got}, expected {want}");
            }
        }
        let mut expected: Vec<u32> = medial.iter().map(|m| g.rules[m.0 as usize].rhs1.unwrap().sym as u32).collect();
        expected.sort();
        ensure!(p.expected == expected, "expected-terminals", "position {i}: {:?}, expected {:?}", p.expected, expected);
        let here = i;
        let mut trace: Vec<(u32, u32, usize)> =
            pred.iter().map(|&s| (g.traces[0][s as usize], here)).chain(medial.iter().map(|&(d, o)| (g.traces[1][d as usize], o))).map(|(t, o)| (t.id, t.pos, o)).collect();
        trace.sort();
        ensure!(p.trace == trace, "trace", "position {i}: {} expected {}", short(&p.trace), short(&trace));
        let mut events: Vec<(u32, u32)> = pred
            .iter()
            .map(|&s| g.events[0][s as usize])
            .chain(medial.iter().map(|&(d, _)| g.events[1][d as usize]))
            .map(|(e, d)| (e.id, d.distance))
            .collect();
        events.sort();
        ensure!(p.events == events, "events", "position {i}: {} expected {}", short(&p.events), short(&events));
        let mut dist: Vec<u32> = events.iter().map(|e| e.1).collect();
        dist.sort();
        ensure!(p.distances == dist, "distances", "position {i}: {} expected {}", short(&p.distances), short(&dist));
    }
    ctx.nontrivial = plan.poss.len() > 1;
    Ok(())
}
