//! Scripts: operations of a session together with disturbances (abandonment, reset, failing callbacks), which can be
//! executed one step at a time.

use super::basic::*;
use super::forests::*;
use super::gram::*;
use super::huge::*;
use super::session::*;
use simcore::*;
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::mpsc::channel;
use std::sync::Mutex;

// ----------------------------------------------------------------------------------------------------- R01, R11

fn after_disturbance(ctx: &mut Ctx, fuses: bool) -> R {
    let unambiguous = ctx.chance(1, 3);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let kind = draw_kind(ctx);
    let limit = draw_limit(ctx);
    let mut script: Vec<X> = vec![];
    for _ in 0..1 + ctx.below(3) {
        script.extend(abandoned(ctx, &g, ScriptOpts { fuses, recreate: false, max_len: 12 }));
    }
    ev!(ctx, "forest {kind:?} limit {limit}; before:");
    show_script(ctx, &script);
    let ops = judged(ctx, &g, 10, true);
    ev!(ctx, "then:");
    log_ops(ctx, &ops);
    let mut m = Machine::new(&g, SimForest::new(kind, &g, 64, true), limit);
    for x in &script {
        match m.step(x) {
            Ok(v) => {
                if v.iter().any(|o| matches!(o, XObs::Failed(_))) {
                    ctx.fired("forest-callback-panic");
                    ctx.nontrivial = true;
                }
            }
            Err(e) => return violation("panic while disturbed", format!("{x:?}: {e}")),
        }
    }
    if !fuses {
        ctx.nontrivial = script.len() > 2 && ops.len() > 8;
    }
    let mut fresh = Sess::with_limit(&g, SimForest::new(kind, &g, 64, true), limit);
    let mut s = m.s;
    let a0 = no_panic("is_finished", || s.rec.is_finished())?;
    let b0 = no_panic("is_finished", || fresh.rec.is_finished())?;
    ensure!(a0 == b0, "reset-visible", "finished before the first position: after reset {a0}, fresh {b0}");
    let oa = no_panic("session after reset", || s.exec_all(&ops))?;
    let ob = no_panic("fresh session", || fresh.exec_all(&ops))?;
    compare("reset-visible", &oa, &ob, "after reset and fresh")?;
    if let Some(e) = s.forest.error() {
        fail!("forest-protocol", "{e}");
    }
    Ok(())
}

pub fn r01(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { resets: true, rejects: true, queries: true, hints: true, relative: true, ..Default::default() });
    }
    after_disturbance(ctx, false)
}

pub fn r11(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return tower(ctx, TOpts { fuses: true, fragments: true, relative: true, ..Default::default() });
    }
    after_disturbance(ctx, true)
}

// ----------------------------------------------------------------------------------------------------------- R05

struct Script {
    kind: FKind,
    limit: usize,
    steps: Vec<X>,
}

fn gen_script(ctx: &mut Ctx, g: &TestGrammar) -> Script {
    let s0 = ctx.span_start();
    let kind = draw_kind(ctx);
    let limit = draw_limit(ctx);
    let mut steps = vec![];
    for _ in 0..1 + ctx.below(3) {
        let s1 = ctx.span_start();
        if ctx.chance(1, 3) {
            let fuses = ctx.chance(1, 2);
            steps.extend(abandoned(ctx, g, ScriptOpts { fuses, recreate: true, max_len: 8 }));
        } else {
            steps.extend(judged(ctx, g, 8, true).into_iter().map(|x| X::Op(x.0)));
            steps.push(X::Reset);
        }
        ctx.span_end(s1);
    }
    ctx.span_end(s0);
    Script { kind, limit, steps }
}

type StepResult = Result<Vec<XObs>, String>;

/// A session on its way to another thread.
struct Travel<'g>(Option<Machine<'g>>);
// SAFETY: one thread at a time touches a session, handed over through a channel; what a session holds behind shared
// pointers is its own.
unsafe impl Send for Travel<'_> {}

/// What interrupts the step that is being made: after so many callbacks, a step of that session.
#[derive(Default)]
struct Pre {
    left: VecDeque<(u32, usize)>,
    made: Vec<usize>,
}

struct Sched<'a> {
    scripts: &'a [Script],
    machines: Vec<Mutex<Travel<'a>>>,
    got: Vec<Mutex<Vec<StepResult>>>,
    pre: Mutex<Pre>,
}

impl<'a> Sched<'a> {
    fn left(&self, i: usize) -> usize {
        self.scripts[i].steps.len() - lock(&self.got[i]).len()
    }
    /// Makes the next step of a session, unless it is in the middle of one.
    fn step(&self, i: usize) -> bool {
        if self.left(i) == 0 {
            return false;
        }
        let Some(mut m) = lock(&self.machines[i]).0.take() else { return false };
        let k = lock(&self.got[i]).len();
        let r = m.step(&self.scripts[i].steps[k]);
        lock(&self.machines[i]).0 = Some(m);
        lock(&self.got[i]).push(r);
        true
    }
    fn yielded(&self) {
        let i = {
            let mut p = lock(&self.pre);
            let Some(front) = p.left.front_mut() else { return };
            if front.0 > 0 {
                front.0 -= 1;
                return;
            }
            p.left.pop_front().unwrap().1
        };
        if self.step(i) {
            lock(&self.pre).made.push(i);
        }
    }
    fn step_outside(&self, i: usize) {
        with_yield(|| self.yielded(), || self.step(i));
    }
    /// Steps of others are made between the steps of a session and inside its forest's callbacks, everything on one
    /// thread, or each (outermost) step on a drawn one.
    fn nested(&self, ctx: &mut Ctx, bursty: bool, workers: usize) -> usize {
        let n = self.scripts.len();
        std::thread::scope(|scope| {
            let chans: Vec<_> = (0..workers)
                .map(|_| {
                    let (tx, rx) = channel::<usize>();
                    let (rtx, rrx) = channel::<()>();
                    scope.spawn(move || {
                        while let Ok(i) = rx.recv() {
                            self.step_outside(i);
                            if rtx.send(()).is_err() {
                                break;
                            }
                        }
                    });
                    (tx, rrx)
                })
                .collect();
            let mut cur = usize::MAX;
            let mut switches = 0;
            loop {
                let live: Vec<usize> = (0..n).filter(|&i| self.left(i) > 0).collect();
                if live.is_empty() {
                    return switches;
                }
                let s0 = ctx.span_start();
                if !live.contains(&cur) || !bursty || ctx.chance(1, 4) {
                    let next = *ctx.pick(&live);
                    switches += (next != cur) as usize;
                    cur = next;
                }
                let mut pre = Pre::default();
                if ctx.chance(1, 3) {
                    for _ in 0..1 + ctx.below(4) {
                        let gap = ctx.below(8);
                        let who = ctx.below(n as u32) as usize;
                        pre.left.push_back((gap, who));
                    }
                }
                *lock(&self.pre) = pre;
                let worker = if workers > 0 { Some(ctx.below(workers as u32) as usize) } else { None };
                ctx.span_end(s0);
                match worker {
                    Some(w) => {
                        chans[w].0.send(cur).unwrap();
                        chans[w].1.recv().expect("harness: worker died");
                    }
                    None => self.step_outside(cur),
                }
                let made = std::mem::take(&mut lock(&self.pre).made);
                ev!(ctx, "step of {cur}{}, inside: {made:?}", worker.map_or(String::new(), |w| format!(" on worker {w}")));
                for _ in &made {
                    ctx.fired("preempted-inside-a-step");
                }
                switches += 2 * made.len();
            }
        })
    }
    /// One thread per session, of which one runs at a time; it hands over between steps and inside callbacks.
    fn threads(&self, ctx: &mut Ctx, bursty: bool) -> usize {
        let n = self.scripts.len();
        std::thread::scope(|scope| {
            let chans: Vec<_> = (0..n)
                .map(|i| {
                    // How many callbacks to pass before handing over; whether the step was finished.
                    let (tx, rx) = channel::<u32>();
                    let (rtx, rrx) = channel::<bool>();
                    scope.spawn(move || {
                        let budget = Cell::new(0u32);
                        while let Ok(b) = rx.recv() {
                            budget.set(b);
                            let hand_over = || {
                                if budget.get() == 0 {
                                    let _ = rtx.send(false);
                                    budget.set(rx.recv().unwrap_or(u32::MAX));
                                } else {
                                    budget.set(budget.get() - 1);
                                }
                            };
                            with_yield(hand_over, || self.step(i));
                            if rtx.send(true).is_err() {
                                break;
                            }
                        }
                    });
                    (tx, rrx)
                })
                .collect();
            let mut mid = vec![false; n];
            let mut cur = usize::MAX;
            let mut switches = 0;
            loop {
                let live: Vec<usize> = (0..n).filter(|&i| mid[i] || self.left(i) > 0).collect();
                if live.is_empty() {
                    return switches;
                }
                let s0 = ctx.span_start();
                if !live.contains(&cur) || !bursty || mid[cur] || ctx.chance(1, 4) {
                    let next = *ctx.pick(&live);
                    switches += (next != cur) as usize;
                    cur = next;
                }
                let budget = if ctx.chance(1, 3) { ctx.below(8) } else { u32::MAX };
                ctx.span_end(s0);
                chans[cur].0.send(budget).unwrap();
                let finished = chans[cur].1.recv().expect("harness: session thread died");
                mid[cur] = !finished;
                ev!(ctx, "{cur} runs{}", if finished { "" } else { ", stopped inside a step" });
                if !finished {
                    ctx.fired("preempted-inside-a-step");
                }
            }
        })
    }
}

/// Whether the compiler lets threads share or pass on a type, found out without refusing to build if it does not.
struct Ask<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const SHARED: bool = false;
    const MOVED: bool = false;
}
impl<T: ?Sized> No for Ask<T> {}
impl<T: ?Sized + Sync> Ask<T> {
    const SHARED: bool = true;
}
impl<T: ?Sized + Send> Ask<T> {
    const MOVED: bool = true;
}

fn threads_allowed() -> R {
    use gearley_forest::NullForest;
    use gearley_recognizer::Recognizer;
    type Simple = simple_bocage::Bocage;
    type Compact = compact_bocage::Bocage;
    #[cfg(feature = "default-grammar")]
    {
        use gearley_default_grammar::DefaultGrammar as D;
        ensure!(Ask::<D>::SHARED && Ask::<D>::MOVED, "not-for-threads", "a prepared grammar can't be shared between threads");
        ensure!(Ask::<Recognizer<&'static D, NullForest>>::MOVED, "not-for-threads", "a recognizer can't be passed to another thread");
        ensure!(Ask::<Recognizer<&'static D, Simple>>::MOVED, "not-for-threads", "a recognizer with the faster forest can't be passed to another thread");
        ensure!(Ask::<Recognizer<&'static D, Compact>>::MOVED, "not-for-threads", "a recognizer with the memory-efficient forest can't be passed to another thread");
    }
    ensure!(Ask::<Simple>::MOVED && Ask::<Compact>::MOVED, "not-for-threads", "a forest can't be passed to another thread");
    Ok(())
}

pub fn r05(ctx: &mut Ctx) -> R {
    if ctx.below(3000) == 2999 {
        return super::huge::sides(ctx);
    }
    threads_allowed()?;
    let unambiguous = ctx.chance(1, 3);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, small: true, ..Default::default() });
    let n = 2 + ctx.weighted(&[3, 2, 1]);
    let scripts: Vec<Script> = (0..n).map(|_| gen_script(ctx, &g)).collect();
    for (i, s) in scripts.iter().enumerate() {
        ev!(ctx, "session {i} forest {:?}:", s.kind);
        show_script(ctx, &s.steps);
    }
    let bursty = ctx.chance(1, 2);
    let sched = Sched {
        scripts: &scripts,
        machines: scripts
            .iter()
            .map(|s| Mutex::new(Travel(Some(Machine::new(&g, SimForest::new(s.kind, &g, 64, true), s.limit)))))
            .collect(),
        got: scripts.iter().map(|_| Mutex::new(vec![])).collect(),
        pre: Mutex::new(Pre::default()),
    };
    let switches = match ctx.below(4) {
        0 | 1 => {
            ctx.probe("one-thread");
            sched.nested(ctx, bursty, 0)
        }
        2 => {
            ctx.probe("moving-between-threads");
            let workers = 2 + ctx.below(2) as usize;
            sched.nested(ctx, bursty, workers)
        }
        _ => {
            ctx.probe("threads");
            sched.threads(ctx, bursty)
        }
    };
    ctx.nontrivial = switches > 3;
    let got: Vec<Vec<StepResult>> = sched.got.iter().map(|g| std::mem::take(&mut *lock(g))).collect();
    // Alone also means with a grammar of its own.
    #[cfg(feature = "default-grammar")]
    let apart = g.prepare_again();
    #[cfg(not(feature = "default-grammar"))]
    let apart: Option<TestGrammar> = None;
    for (i, s) in scripts.iter().enumerate() {
        let g = apart.as_ref().unwrap_or(&g);
        let mut m = Machine::new(g, SimForest::new(s.kind, g, 64, true), s.limit);
        for (k, x) in s.steps.iter().enumerate() {
            let want = m.step(x);
            if let Ok(v) = &want {
                if v.iter().any(|o| matches!(o, XObs::Failed(_))) {
                    ctx.fired("forest-callback-panic");
                }
            }
            ensure!(
                got[i][k] == want,
                "isolation",
                "session {i} step {k} {x:?}: among others {}, alone {}",
                short(&got[i][k]),
                short(&want)
            );
        }
    }
    Ok(())
}
