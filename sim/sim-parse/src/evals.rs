//! What the forests stand for (F01) and what evaluating them gives (F02, F03, F04).

use super::forests::*;
use super::gram::*;
use super::huge::*;
use super::refs::*;
use super::script::*;
use super::session::*;
use super::veto::*;
use gearley_forest::Forest;
use simcore::*;
use std::cell::Cell;

/// The actions that evaluating the tree should call, sorted: its subtrees, one per node.
pub fn subtrees(text: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut open: Vec<usize> = vec![];
    let mut start = 0;
    let b = text.as_bytes();
    for (i, &c) in b.iter().enumerate() {
        match c {
            b'(' => {
                open.push(start);
                start = i + 1;
            }
            b',' => {
                if start < i {
                    v.push(&text[start..i]);
                }
                start = i + 1;
            }
            b')' => {
                if start < i {
                    v.push(&text[start..i]);
                }
                let s = open.pop().expect("harness: unbalanced tree");
                v.push(&text[s..=i]);
                start = i + 1;
            }
            _ => {}
        }
    }
    if start < b.len() {
        v.push(&text[start..]);
    }
    v.sort_unstable();
    v
}

/// Checks one complete evaluation against the tree.
pub fn check_value(what: &str, got: (String, Vec<String>), tree: &str) -> R {
    let (value, mut calls) = got;
    ensure!(value == tree, "value", "{what}: value {}, the tree is {}", short(&value), short(tree));
    calls.sort_unstable();
    let want = subtrees(tree);
    ensure!(
        calls.len() == want.len() && calls.iter().zip(&want).all(|(a, b)| a == b),
        "action-calls",
        "{what}: actions called {}, nodes of the tree {}",
        short(&calls),
        short(&want)
    );
    Ok(())
}

// ----------------------------------------------------------------------------------------------------------- F01

pub fn f01(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { trees: true, rejects: true, mixed: true, hints: true, resets: true, fuses: true, ..Default::default() });
    }
    let unambiguous = ctx.chance(1, 5);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let forest = SimForest::new(FKind::Rec, &g, 64, false);
    let limit = draw_limit(ctx);
    let mut m = Machine::new(&g, forest, limit);
    if ctx.chance(1, 4) {
        for _ in 0..1 + ctx.below(2) {
            let fuses = ctx.chance(1, 3);
            let script = abandoned(ctx, &g, ScriptOpts { fuses, recreate: true, max_len: 8 });
            show_script(ctx, &script);
            for x in &script {
                if let Err(e) = m.step(x) {
                    return violation("panic in an earlier session", format!("{x:?}: {e}"));
                }
            }
        }
    }
    let mut s = m.s;
    let plan = gen_plan(ctx, &g, PlanOpts { max_len: 14, ..Default::default() });
    show_plan_short(ctx, &plan);
    let manual = ctx.below(3);
    let hints = ctx.chance(1, 3);
    let mut plan = plan;
    if ctx.chance(1, 4) {
        // The same terminal with another value is another reading of the input.
        for (i, p) in plan.poss.iter_mut().enumerate() {
            if ctx.chance(1, 4) {
                let mut t = ctx.pick(&p.offer).clone();
                t.val = value(ctx, i + 1000);
                if !p.offer.contains(&t) {
                    p.offer.push(t);
                    ctx.probe("same-terminal-twice");
                }
            }
        }
    }
    let lattice: Vec<Vec<Tok>> = plan.poss.iter().map(|p| p.offer.clone()).collect();
    let mut trees = Trees::new(&g, &lattice, false);
    for i in 0..=plan.poss.len() {
        let s1 = ctx.span_start();
        let (rejects, offer) = match i {
            0 => (vec![], vec![Tok { sym: g.sof_num(), val: 0 }]),
            _ => (plan.poss[i - 1].rejects.clone(), plan.poss[i - 1].offer.clone()),
        };
        let mut hinted = false;
        no_panic("begin", || s.begin())?;
        if hints {
            if let Some(next) = plan.poss.get(i).filter(|n| n.offer.len() == 1) {
                if ctx.chance(2, 3) {
                    let h = next.offer[0].sym;
                    no_panic("hint", || {
                        s.exec(&Op::Hint(h));
                    })?;
                    if ctx.chance(1, 4) {
                        no_panic("hint", || {
                            s.exec(&Op::ClearHint);
                        })?;
                        ctx.fired("hint-lost");
                    } else {
                        hinted = true;
                        ctx.fired("hint");
                    }
                }
            }
        }
        for (toks, want) in rejects.iter().map(|r| (r, false)).chain([(&offer, true)]) {
            ctx.step();
            let how = draw_how(ctx, manual);
            let ok = no_panic("closing a position", || {
                for t in toks {
                    s.scan(t);
                }
                s.end(how)
            })?;
            if !want {
                ctx.fired("rejected-offer");
            }
            ev!(ctx, "position {i} offer {toks:?} {how:?}: {ok}");
            if ok != want {
                // Whether verdicts are right is another property; without hints the trees cannot be right either.
                ensure!(hinted || hints, "forest-verdict", "position {i}: offer {toks:?} said {ok}, expected {want}");
                return Ok(());
            }
        }
        if let Some(e) = s.forest.error() {
            fail!("forest-protocol", "{e}");
        }
        if !hinted {
            let node = no_panic("finished_node", || s.rec.finished_node())?;
            let want = trees.upto(i);
            let want = if want.c == 0 { None } else { Some(want) };
            let got = match node {
                None => None,
                Some(n) => {
                    let r = s.forest.rec().unwrap();
                    let Some(node) = r.nodes.get(n.0 as usize) else {
                        return violation("forest-protocol", format!("finished node {} was never handed out", n.0));
                    };
                    Some(node.p.clone())
                }
            };
            ensure!(
                got == want,
                "trees",
                "after position {i}: the finished node stands for {}, the input has {} (hash/number of trees)",
                got.as_ref().map_or("nothing".to_string(), |p| p.show()),
                want.as_ref().map_or("nothing".to_string(), |p| p.show())
            );
            if let Some(p) = &want {
                ctx.nontrivial = true;
                if p.c > 1 {
                    ctx.probe("ambiguous");
                }
                if i == 0 {
                    ctx.probe("empty-input");
                }
            }
        }
        if s.rec.earleme().wrapping_add(2) < s.pos {
            ctx.probe("compacted");
        }
        ctx.span_end(s1);
    }
    Ok(())
}

fn show_plan_short(ctx: &mut Ctx, plan: &Plan) {
    ev!(ctx, "{} positions", plan.poss.len());
}

// ------------------------------------------------------------------------------------------------------ F02, F03

/// Grows a compact forest as earlier sessions would, to just below a size at which its references get longer.
fn prefill(ctx: &mut Ctx, f: &SimForest) {
    let Store::Compact(b) = &f.store else { return };
    let boundary = match ctx.weighted(&[30, 12, 1]) {
        0 => 1usize << 8,
        1 => 1 << 16,
        _ => 1 << 24,
    };
    let before = ctx.below(160) as usize;
    let mut b = lock(b);
    // The handle of a new leaf is the size of the forest before it.
    loop {
        let at = b.leaf(sym(1), 0, 0).0 as usize;
        if at + before + 3 >= boundary {
            break;
        }
        // Long leaves as long as there is room.
        let room = boundary - before - at;
        for _ in 0..room / 16 {
            b.leaf(sym(300), 0, u32::MAX);
        }
    }
    ctx.probe(match boundary {
        0x100 => "grown-to-2^8",
        0x1_0000 => "grown-to-2^16",
        _ => "grown-to-2^24",
    });
}

/// Evaluates to fingerprints, so that the values of an ambiguous parse can be compared with its set of trees.
struct Prints {
    /// The number of the call that fails.
    fail_at: Option<u32>,
    calls: Cell<u32>,
}

impl Prints {
    fn call(&self) {
        let n = self.calls.get();
        if self.fail_at == Some(n) {
            inject("action-panic");
        }
        self.calls.set(n + 1);
    }
}

impl gearley_forest::Evaluate for Prints {
    type Elem = P;
    fn leaf(&self, terminal: cfg_symbol::Symbol, values: u32) -> P {
        self.call();
        p_leaf(&Tok { sym: terminal.usize(), val: values }, false)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a P>) -> P {
        self.call();
        let mut p = P::one();
        p.t = None;
        for (i, a) in args.enumerate() {
            p = p.times(&a.factor(Some((action as usize, i))));
        }
        p.wrap(action as usize)
    }
    fn nulling<'r>(&self, symbol: cfg_symbol::Symbol, results: &'r mut Vec<P>) {
        self.call();
        for h in null_values(symbol.usize()) {
            results.push(P { h, n: 1, c: 1, t: None });
        }
    }
}

/// The values of an ambiguous parse are those of its trees, however often evaluating was interrupted before.
fn check_values(ctx: &mut Ctx, what: &str, f: &SimForest, node: u32, want: &P) -> R {
    let mut calls = 3;
    for _ in 0..2 {
        if !ctx.chance(1, 4) {
            break;
        }
        let at = ctx.below(calls);
        let prints = Prints { fail_at: Some(at), calls: Cell::new(0) };
        match guard(|| f.evaluate_with(prints, node)) {
            Outcome::Injected(_) => ctx.fired("action-panic"),
            Outcome::Done(_) => {}
            Outcome::Panicked(m) => return violation("panic in evaluation", format!("{what}: {m}")),
        }
        calls *= 8;
    }
    let values = no_panic("evaluation", || f.evaluate_with(Prints { fail_at: None, calls: Cell::new(0) }, node))?;
    let mut got = P::default();
    for v in &values {
        got = got.plus(v);
    }
    if values.len() as u64 != want.n || got.h != want.h {
        let texts = f.evaluate(node, None).0;
        fail!("values", "{what}: {} values for {} trees: {}", values.len(), want.n, short(&texts));
    }
    ev!(ctx, "{what}: {} values {:x}", values.len(), got.h);
    ctx.probe("ambiguous-evaluated");
    if want.n > 255 {
        ctx.probe("over-255-trees");
    }
    if want.n > 100 {
        ctx.probe("over-100-trees");
    }
    Ok(())
}

/// The values in their order, as fingerprints.
fn values(f: &SimForest, node: u32) -> R<Vec<u64>> {
    let v = no_panic("evaluation", || f.evaluate_with(Prints { fail_at: None, calls: Cell::new(0) }, node))?;
    Ok(v.iter().map(|p| p.h).collect())
}

/// `twin`: a second session of the same kind, without a past and with capacities of its own.
fn evaluation(ctx: &mut Ctx, kinds: &[FKind], ambiguous: bool, twin: bool) -> R {
    set_nulls(0, false);
    let unambiguous = if ambiguous { ctx.chance(1, 8) } else { ctx.chance(4, 5) };
    let wide = ambiguous && ctx.below(300) == 299;
    let g = gen_grammar(ctx, &GenOpts { unambiguous, wide, ..Default::default() });
    let cap = *ctx.pick(&[1024usize, 0, 1, 64, 4096]);
    let limit = draw_limit(ctx);
    let mut ms: Vec<Machine> =
        kinds.iter().map(|&k| Machine::new(&g, SimForest::new(k, &g, cap, true), limit)).collect();
    ev!(ctx, "forests {kinds:?} capacity {cap} limit {limit}");
    if kinds[0] == FKind::Compact && ctx.chance(1, 8) {
        prefill(ctx, &ms[0].s.forest.clone());
    }
    let earlier = if ctx.chance(1, 2) { 1 + ctx.below(3) } else { 0 };
    for _ in 0..earlier {
        let fuses = ctx.chance(1, 3);
        let script = abandoned(ctx, &g, ScriptOpts { fuses, recreate: true, max_len: 8 });
        show_script(ctx, &script);
        ctx.fired("earlier-session");
        for x in &script {
            for m in &mut ms {
                match m.step(x) {
                    Ok(v) => {
                        if v.iter().any(|o| matches!(o, XObs::Failed(_))) {
                            ctx.fired("forest-callback-panic");
                        }
                    }
                    Err(e) => return violation("panic in an earlier session", format!("{x:?}: {e}")),
                }
            }
        }
    }
    let mut ss: Vec<Sess> = ms.into_iter().map(|m| m.s).collect();
    // Nodes of the judged session and its twin, with their values.
    let mut kept: Vec<([u32; 2], Vec<u64>)> = vec![];
    if twin {
        let cap = *ctx.pick(&[1024usize, 0, 1, 64, 4096]);
        let limit = draw_limit(ctx);
        if earlier > 0 {
            // The earlier sessions end here.
            no_panic("reset", || ss[0].reset())?;
            ctx.fired("reset");
        }
        ss.push(Sess::with_limit(&g, SimForest::new(kinds[0], &g, cap, true), limit));
        ev!(ctx, "twin: capacity {cap} limit {limit}");
    }
    let mut v = draw_veto(ctx, false);
    let refuse = ctx.chance(1, 2);
    let style = Style { skip_call: ctx.chance(1, 2), abandon: ctx.chance(2, 3), seed: ctx.below(1 << 16) as u64 };
    let manual = ctx.below(3);
    let mut max = 1 + ctx.below(14) as usize;
    if ambiguous && ctx.chance(1, 8) {
        let none = ctx.chance(1, 4);
        if none {
            // Where nothing is left of a tree, there is no telling how many partial values there were.
            max = max.min(4);
        }
        set_nulls(1 + ctx.below(1 << 16) as u64, none);
        ev!(ctx, "actions of empty symbols give several values{}", if none { " or none" } else { "" });
        ctx.probe("several-empty-values");
    }
    let first = 1 + ctx.below(3) as usize;
    let base: Vec<usize> = if ctx.chance(4, 5) {
        g.orig.sentence(ctx, max).into_iter().map(|t| g.term_of(t)).collect()
    } else {
        vec![]
    };
    let len = if base.is_empty() { max } else { base.len().min(2 * max) };
    let mut r = BRef::before_sof(&g, true);
    let mut refused = 0;
    // Before anything is read, the input is empty.
    for s in &mut ss {
        let kind = s.forest.kind();
        let pristine = s.rec.earleme() == usize::MAX;
        if !pristine || !ctx.chance(1, 2) {
            continue;
        }
        let node = no_panic("finished_node", || s.rec.finished_node())?;
        ensure!(node.is_some() == g.start_nullable, "eval-verdict", "{kind:?} before the first position: finished {}", node.is_some());
        if let Some(node) = node {
            let want = p_null(g.of_orig[0].unwrap(), true);
            if let Some(tree) = &want.t {
                let got = no_panic("evaluation", || s.forest.evaluate(node.0, None))?;
                check_value(&format!("{kind:?} before the first position"), got, tree)?;
            } else {
                check_values(ctx, &format!("{kind:?} before the first position"), &s.forest, node.0, &want)?;
            }
            ctx.probe("nothing-read");
        }
    }
    for i in 0..=len {
        let s1 = ctx.span_start();
        ctx.step();
        let (offer, junk_first) = if i == 0 {
            (vec![Tok { sym: g.sof_num(), val: 0 }], vec![])
        } else {
            let viable = r.viable();
            if viable.is_empty() {
                ctx.span_end(s1);
                break;
            }
            let j = if ctx.chance(1, 5) { junk(ctx, &g, &r) } else { vec![] };
            let main = match base.get(i - 1) {
                Some(&t) if viable.contains(&t) => t,
                _ => *ctx.pick(&viable),
            };
            let val = value(ctx, i);
            let mut o = vec![Tok { sym: main, val }];
            if ambiguous && ctx.chance(1, 10) {
                let again = Tok { sym: main, val: value(ctx, 200 + i) };
                if !o.contains(&again) {
                    o.push(again);
                    ctx.probe("same-terminal-twice");
                }
            }
            if ctx.chance(1, 8) {
                let t = *ctx.pick(&viable);
                if t != main {
                    let val = value(ctx, 100 + i);
                    o.push(Tok { sym: t, val });
                }
            }
            (o, j)
        };
        v.pos = i;
        let mut veto = v;
        let by_hand = refuse && i >= first && ctx.chance(2, 3);
        if !by_hand {
            veto.frag = 0;
            veto.alt = 0;
        }
        let how = draw_how(ctx, manual);
        // A twin is offered nothing that is refused, and may be closed in another way.
        let hows = [how, if twin { draw_how(ctx, manual) } else { how }];
        let want = r.step(&offer, &veto);
        for (nth, s) in ss.iter_mut().enumerate() {
            let kind = s.forest.kind();
            let how = hows[nth];
            if !junk_first.is_empty() && !(twin && nth == 1) {
                ctx.fired("rejected-offer");
                let rejected = no_panic("rejected offer", || {
                    s.begin();
                    for t in &junk_first {
                        s.scan(t);
                    }
                    s.end(How::Auto)
                })?;
                ensure!(!rejected, "eval-verdict", "{kind:?} position {i}: tokens {junk_first:?} accepted");
            }
            let (ok, n) = no_panic("closing a position", || {
                s.begin();
                for t in &offer {
                    s.scan(t);
                }
                if by_hand {
                    drive(s, &veto, style)
                } else {
                    (s.end(how), [0; 3])
                }
            })?;
            for (k, name) in [(n[0], "fragment-refused"), (n[1], "alternative-refused"), (n[2], "sum-abandoned")] {
                for _ in 0..k {
                    ctx.fired(name);
                }
            }
            refused += n[0] + n[1] + n[2];
            ensure!(ok == want, "eval-verdict", "{kind:?} position {i}: verdict {ok}, expected {want}");
        }
        ev!(ctx, "position {i} offers {offer:?} after {junk_first:?}, by hand {by_hand} {how:?}");
        if !want {
            ctx.span_end(s1);
            break;
        }
        let fin = r.finished();
        let tree = fin.as_ref().and_then(|p| if p.c == 1 { p.t.clone() } else { None });
        // Intermediate results are evaluated only sometimes: evaluation itself may change the forest.
        let look = i == len || ctx.chance(1, 2);
        let mut nodes = vec![];
        for s in &mut ss {
            let kind = s.forest.kind();
            let node = no_panic("finished_node", || s.rec.finished_node())?;
            ensure!(
                node.is_some() == fin.is_some(),
                "eval-verdict",
                "{kind:?} position {i}: finished {}, expected {}",
                node.is_some(),
                fin.is_some()
            );
            if let (Some(node), Some(tree), true) = (node, &tree, look) {
                let got = no_panic("evaluation", || s.forest.evaluate(node.0, None))?;
                ev!(ctx, "{kind:?} position {i}: {}", got.0);
                check_value(&format!("{kind:?} position {i}"), got, tree)?;
                ctx.probe("evaluated");
                if i == 0 {
                    ctx.probe("empty-input");
                }
                if tree.contains(&['n'][..]) {
                    ctx.probe("empty-symbols");
                }
                if refused > 0 {
                    ctx.probe("evaluated-after-refusal");
                }
                if i > 1 && !ambiguous {
                    ctx.nontrivial = true;
                }
            }
            if let (Some(node), Some(want), true, true) = (node, &fin, look, ambiguous) {
                if want.c > 1 && want.n <= 2000 && twin {
                    nodes.push(node.0);
                } else if want.c > 1 && want.n <= 2000 {
                    check_values(ctx, &format!("{kind:?} position {i}"), &s.forest, node.0, want)?;
                    ctx.nontrivial = true;
                    if refused > 0 {
                        ctx.probe("evaluated-after-refusal");
                    }
                }
            }
        }
        if let [a, b] = nodes[..] {
            for k in 0..2 {
                if ctx.chance(1, 3) {
                    interrupt(ctx, &ss[k].forest, nodes[k])?;
                }
            }
            let va = values(&ss[0].forest, a)?;
            let vb = values(&ss[1].forest, b)?;
            ev!(ctx, "position {i}: {va:x?}");
            same_order(&format!("position {i}, {:?} with a past and without", kinds[0]), &va, &vb)?;
            kept.push(([a, b], va));
            ctx.nontrivial = true;
            ctx.probe("ambiguous-evaluated");
            if refused > 0 {
                ctx.probe("evaluated-after-refusal");
            }
        }
        if !kept.is_empty() && ctx.chance(1, 3) {
            // What was evaluated before, again.
            let (ab, want) = &kept[ctx.below(kept.len() as u32) as usize];
            let k = ctx.below(2) as usize;
            let got = values(&ss[k].forest, ab[k])?;
            same_order("evaluated again later", want, &got)?;
            ctx.probe("repeated");
        }
        ctx.span_end(s1);
    }
    Ok(())
}

fn same_order(what: &str, a: &[u64], b: &[u64]) -> R {
    if a == b {
        return Ok(());
    }
    let (mut x, mut y) = (a.to_vec(), b.to_vec());
    x.sort();
    y.sort();
    if x == y {
        let at = (0..a.len()).find(|&i| a[i] != b[i]).unwrap();
        fail!("value-order", "{what}: the same {} values in another order, from number {at} on", a.len());
    }
    fail!("value-set", "{what}: {} values and {}", a.len(), b.len());
}

/// An evaluation that fails.
fn interrupt(ctx: &mut Ctx, f: &SimForest, node: u32) -> R {
    let within = *ctx.pick(&[3u32, 24, 200]);
    let at = ctx.below(within);
    let prints = Prints { fail_at: Some(at), calls: Cell::new(0) };
    match guard(|| f.evaluate_with(prints, node)) {
        Outcome::Injected(_) => ctx.fired("action-panic"),
        Outcome::Done(_) => {}
        Outcome::Panicked(m) => return violation("panic in evaluation", m),
    }
    Ok(())
}

/// F06: the values of an ambiguous parse come in an order that only the parse decides.
pub fn f06(ctx: &mut Ctx) -> R {
    let kind = *ctx.pick(&[FKind::Compact, FKind::Simple]);
    evaluation(ctx, &[kind], true, true)
}

pub fn f02(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { eval: &[FKind::Simple], resets: true, rejects: true, ..Default::default() });
    }
    evaluation(ctx, &[FKind::Simple], false, false)
}

pub fn f03(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { eval: &[FKind::Compact, FKind::Simple], resets: true, rejects: true, ..Default::default() });
    }
    evaluation(ctx, &[FKind::Compact, FKind::Simple], false, false)
}

pub fn f05(ctx: &mut Ctx) -> R {
    let kinds: &[FKind] = match ctx.below(3) {
        0 => &[FKind::Compact, FKind::Simple],
        1 => &[FKind::Compact],
        _ => &[FKind::Simple],
    };
    evaluation(ctx, kinds, true, false)
}

// ----------------------------------------------------------------------------------------------------------- F04

struct Kept {
    node: u32,
    pos: usize,
    tree: String,
    evaluated: u32,
    interrupted: u32,
}

/// Evaluates kept nodes, completely or up to a failing action.
fn evaluate_some(ctx: &mut Ctx, forest: &SimForest, kept: &mut [Kept], rate: u32) -> R {
    if kept.is_empty() {
        return Ok(());
    }
    for _ in 0..3 {
        if !ctx.chance(rate, 6) {
            break;
        }
        let s = ctx.span_start();
        // Mostly the newest.
        let n = kept.len() as u32;
        let i = if ctx.chance(1, 2) { ctx.below(n) } else { n - 1 } as usize;
        let k = &mut kept[i];
        let calls = subtrees(&k.tree).len() as u32;
        if ctx.chance(1, 2) {
            let at = ctx.below(calls) as u64;
            match guard(|| forest.evaluate(k.node, Some(at))) {
                Outcome::Injected(_) => {
                    ctx.fired("action-panic");
                    k.interrupted += 1;
                    ev!(ctx, "evaluation of position {} interrupted at action {at}", k.pos);
                }
                Outcome::Done(got) => {
                    fail!("action-calls", "node of position {}: only {} actions called, its tree has {calls}", k.pos, got.1.len());
                }
                Outcome::Panicked(m) => return violation("panic in evaluation", format!("position {}: {m}", k.pos)),
            }
        } else {
            let got = no_panic("evaluation", || forest.evaluate(k.node, None))?;
            check_value(
                &format!("position {}, evaluated {} times and interrupted {} times before", k.pos, k.evaluated, k.interrupted),
                got,
                &k.tree,
            )?;
            ev!(ctx, "position {} evaluated", k.pos);
            if k.evaluated > 0 {
                ctx.probe("repeated");
                ctx.nontrivial = true;
            }
            if k.interrupted > 0 {
                ctx.probe("evaluated-after-interruption");
                ctx.nontrivial = true;
            }
            k.evaluated += 1;
        }
        ctx.span_end(s);
    }
    Ok(())
}

pub fn f04(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { eval: &[FKind::Simple, FKind::Compact], interrupted: true, fuses: true, ..Default::default() });
    }
    let unambiguous = ctx.chance(4, 5);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let kind = *ctx.pick(&[FKind::Simple, FKind::Compact]);
    let cap = *ctx.pick(&[1024usize, 0, 64]);
    let forest = SimForest::new(kind, &g, cap, true);
    ev!(ctx, "forest {kind:?} capacity {cap}");
    if kind == FKind::Compact && ctx.chance(1, 10) {
        prefill(ctx, &forest);
    }
    let mut s = Sess::new(&g, forest.clone());
    for session in 0..1 + ctx.below(4) / 3 {
        if session > 0 {
            no_panic("reset", || s.reset())?;
            ctx.fired("reset");
        }
        let plan = gen_plan(ctx, &g, PlanOpts { max_len: 12, alternatives: false, texts: true, ..Default::default() });
        let manual = ctx.below(3);
        let mut kept: Vec<Kept> = vec![];
        for i in 0..=plan.poss.len() {
            let s1 = ctx.span_start();
            ctx.step();
            let (rejects, offer) = match i {
                0 => (vec![], vec![Tok { sym: g.sof_num(), val: 0 }]),
                _ => (plan.poss[i - 1].rejects.clone(), plan.poss[i - 1].offer.clone()),
            };
            no_panic("begin", || s.begin())?;
            for (toks, want) in rejects.iter().map(|r| (r, false)).chain([(&offer, true)]) {
                evaluate_some(ctx, &forest, &mut kept, 1)?;
                for t in toks {
                    no_panic("scan", || s.scan(t))?;
                    evaluate_some(ctx, &forest, &mut kept, 1)?;
                }
                let how = draw_how(ctx, manual);
                let ok = no_panic("closing a position", || s.end(how))?;
                ensure!(ok == want, "eval-verdict", "position {i}: offer {toks:?} said {ok}, expected {want}");
            }
            ev!(ctx, "position {i} offered {offer:?}");
            let fin = if i == 0 { BRef::new(&g, true).finished() } else { plan.poss[i - 1].fin.clone() };
            let node = no_panic("finished_node", || s.rec.finished_node())?;
            ensure!(
                node.is_some() == fin.is_some(),
                "eval-verdict",
                "position {i}: finished {}, expected {}",
                node.is_some(),
                fin.is_some()
            );
            if let (Some(node), Some(P { c: 1, t: Some(t), .. })) = (node, &fin) {
                kept.push(Kept { node: node.0, pos: i, tree: t.to_string(), evaluated: 0, interrupted: 0 });
                evaluate_some(ctx, &forest, &mut kept, 4)?;
            }
            ctx.span_end(s1);
        }
        // All of them, twice, after the session.
        for _ in 0..2 {
            for k in &mut kept {
                let got = no_panic("evaluation", || forest.evaluate(k.node, None))?;
                check_value(
                    &format!("at the end, position {}, evaluated {} times and interrupted {} times before", k.pos, k.evaluated, k.interrupted),
                    got,
                    &k.tree,
                )?;
                k.evaluated += 1;
            }
        }
        if kept.len() > 1 {
            ctx.probe("several-kept-nodes");
        }
    }
    Ok(())
}
