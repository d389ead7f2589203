//! L01: the recognizer built with its `log` feature, under a log sink that the simulator switches on and off, and that
//! fails, next to the recognizer built without the feature.

#[path = "../../sim-parse/src/forests.rs"]
mod forests;
#[path = "../../sim-parse/src/gram.rs"]
mod gram;
#[path = "../../sim-parse/src/ops.rs"]
mod ops;
#[path = "../../sim-parse/src/refs.rs"]
mod refs;

#[cfg(feature = "default-grammar")]
#[path = "../../sim-full/src/lists.rs"]
mod lists;

mod loud;
mod quiet;

use forests::SimForest;
use gram::{GenOpts, TestGrammar};
use log::{LevelFilter, Log, Metadata, Record};
use ops::*;
use simcore::*;
use std::cell::RefCell;
use std::fmt::Write;
use std::sync::RwLock;

// --------------------------------------------------------------------------------------------------------- the sink

#[derive(Default)]
struct Sink {
    on: bool,
    /// Records seen while on.
    records: u64,
    fail_at: Option<(u64, Fail)>,
    /// Number of text bytes accepted before every write is refused.
    room: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    /// Before the record is looked at.
    AtOnce,
    /// After this many bytes of its text.
    Midway(usize),
    /// After the whole text.
    Late,
}

thread_local! {
    /// The sink of the worker thread's current run.
    static SINK: RefCell<Sink> = RefCell::default();
}

struct Paper {
    left: Option<usize>,
    room: Option<usize>,
    bytes: usize,
}

impl Write for Paper {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.bytes += s.len();
        if let Some(l) = &mut self.left {
            if s.len() >= *l {
                inject("log-sink-panic-midway");
            }
            *l -= s.len();
        }
        if let Some(r) = &mut self.room {
            if s.len() > *r {
                return Err(std::fmt::Error);
            }
            *r -= s.len();
        }
        Ok(())
    }
}

struct Global;

impl Log for Global {
    fn enabled(&self, _: &Metadata) -> bool {
        SINK.with(|s| s.borrow().on)
    }
    fn log(&self, record: &Record) {
        let (fail, room) = SINK.with(|s| {
            let mut s = s.borrow_mut();
            if !s.on {
                return (None, None);
            }
            s.records += 1;
            let fail = match s.fail_at {
                Some((n, how)) if s.records >= n => {
                    s.fail_at = None;
                    Some(how)
                }
                _ => None,
            };
            (fail, s.room)
        });
        if !self.enabled(record.metadata()) {
            return;
        }
        let left = match fail {
            Some(Fail::AtOnce) => inject("log-sink-panic"),
            Some(Fail::Midway(n)) => Some(n),
            _ => None,
        };
        let mut p = Paper { left, room, bytes: 0 };
        let _ = write!(p, "{}", record.args());
        if fail.is_some() {
            inject("log-sink-panic-late");
        }
    }
    fn flush(&self) {}
}

/// Runs that change the process-wide level exclude all others.
static LEVEL: RwLock<()> = RwLock::new(());

/// Restores the sink and the level at the end of a run.
struct Restore;

impl Drop for Restore {
    fn drop(&mut self) {
        SINK.with(|s| *s.borrow_mut() = Sink::default());
    }
}

struct RestoreLevel;

impl Drop for RestoreLevel {
    fn drop(&mut self) {
        log::set_max_level(LevelFilter::Trace);
    }
}

// ------------------------------------------------------------------------------------------------------- the scenario

#[derive(Clone, Debug)]
enum Sw {
    /// This thread's sink.
    Sink(bool),
    /// The process-wide level.
    Level(LevelFilter),
    Room(Option<usize>),
    /// Fail at the n-th record from now on.
    Arm(u64, Fail),
}

fn set(s: &Sw) {
    match s {
        Sw::Sink(on) => SINK.with(|k| k.borrow_mut().on = *on),
        Sw::Level(l) => log::set_max_level(*l),
        Sw::Room(r) => SINK.with(|k| k.borrow_mut().room = *r),
        Sw::Arm(n, how) => SINK.with(|k| {
            let mut k = k.borrow_mut();
            let at = k.records + n;
            k.fail_at = Some((at, *how));
        }),
    }
}

fn draw_fail(ctx: &mut Ctx) -> Fail {
    match ctx.below(4) {
        0 => Fail::AtOnce,
        1 => Fail::Late,
        _ => Fail::Midway(ctx.below(90) as usize),
    }
}

fn draw_switch(ctx: &mut Ctx, levels: bool) -> Sw {
    match ctx.below(if levels { 6 } else { 4 }) {
        0 => Sw::Sink(false),
        1 | 2 => Sw::Sink(true),
        3 => {
            let some = ctx.chance(1, 2);
            let n = ctx.below(60) as usize;
            Sw::Room(if some { Some(n) } else { None })
        }
        4 => Sw::Level(LevelFilter::Trace),
        _ => {
            let l = *ctx.pick(&[LevelFilter::Off, LevelFilter::Info, LevelFilter::Debug]);
            Sw::Level(l)
        }
    }
}

fn count(ctx: &mut Ctx, s: &Sw) {
    ctx.fired(match s {
        Sw::Sink(true) => "sink-switched-on",
        Sw::Sink(false) => "sink-switched-off",
        Sw::Level(_) => "level-changed",
        Sw::Room(Some(_)) => "sink-full",
        Sw::Room(None) => "sink-has-room",
        Sw::Arm(..) => "sink-failure-armed",
    });
}

/// The same grammar with tables that were prepared under the log, if they are the bundled ones.
fn under_log(ctx: &mut Ctx, g: &TestGrammar, failing: bool) -> Option<TestGrammar> {
    #[cfg(feature = "default-grammar")]
    {
        if !g.is_real() {
            return None;
        }
        let on = Sw::Sink(ctx.chance(7, 8));
        let room = ctx.chance(1, 4).then(|| ctx.below(2000) as usize);
        set(&on);
        set(&Sw::Room(room));
        count(ctx, &on);
        if failing && ctx.chance(1, 2) {
            let n = 1 + ctx.below(12) as u64;
            let how = draw_fail(ctx);
            ev!(ctx, "prepared under a log that fails: {n} {how:?}");
            set(&Sw::Arm(n, how));
            if let Outcome::Injected(k) = guard(|| g.prepare_again()) {
                ctx.fired(k);
                ctx.probe("preparation-interrupted");
            }
            SINK.with(|s| s.borrow_mut().fail_at = None);
        }
        let r = g.prepare_again();
        ctx.probe("prepared-under-log");
        set(&Sw::Sink(false));
        set(&Sw::Room(None));
        return r;
    }
    #[allow(unreachable_code)]
    {
        let _ = (ctx, g, failing);
        None
    }
}

/// The bundled drivers.
#[cfg(feature = "default-grammar")]
fn driven(ctx: &mut Ctx) -> R {
    use lists::*;
    let unambiguous = ctx.chance(1, 2);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let failing = ctx.chance(1, 2);
    let _restore = Restore;
    let _r = LEVEL.read().unwrap_or_else(|e| e.into_inner());
    set(&Sw::Sink(false));
    let again = under_log(ctx, &g, failing);
    let lg = again.as_ref().unwrap_or(&g);
    let kind = draw_kind(ctx);
    let mut q = quiet::driven::Driven::new(&g, SimForest::new(kind, &g, 64, true));
    let mut l = loud::driven::Driven::new(lg, SimForest::new(kind, lg, 64, true));
    let (_, loaded) = draw_classes(ctx, &g);
    let classes = loaded.clone();
    let n = 1 + ctx.below(5);
    for round in 0..n {
        ctx.step();
        let s0 = ctx.span_start();
        let list = draw_list(ctx, &g.orig);
        let unamb = {
            let lattice: Vec<Vec<refs::Tok>> = list
                .iter()
                .enumerate()
                .map(|(i, &t)| g.of_orig[t].map(|s| refs::Tok { sym: s, val: i as u32 }).into_iter().collect())
                .collect();
            refs::Trees::new(&g, &lattice, false).whole().c == 1
        };
        for s in [draw_switch(ctx, false), Sw::Sink(true)].iter().take(1 + ctx.below(2) as usize) {
            set(s);
            count(ctx, s);
        }
        if failing && ctx.chance(1, 2) {
            let n = 1 + ctx.below(60) as u64;
            let how = draw_fail(ctx);
            let s = Sw::Arm(n, how);
            set(&s);
            count(ctx, &s);
        }
        let which = if g.is_real() { ctx.below(3) } else { 0 };
        let sink = SINK.with(|s| format!("on {} room {:?} fails {:?}", s.borrow().on, s.borrow().room, s.borrow().fail_at));
        // The quiet one under a quiet log, too: the preparation's records are made unconditionally.
        let (want, got) = match which {
            0 => {
                let tokens: Vec<_> = list.iter().map(|&t| sym(g.ext[t])).collect();
                (q.parse(&tokens, unamb), l.parse(&tokens, unamb))
            }
            1 => {
                let (dg, lg) = (g.default_grammar().unwrap().clone(), lg.default_grammar().unwrap().clone());
                let names: Vec<String> = list.iter().map(|t| format!("s{t}")).collect();
                ctx.probe("words");
                (quiet::driven::words(named(&g), dg, &names), loud::driven::words(named(&g), lg, &names))
            }
            _ => {
                let (dg, lg) = (g.default_grammar().unwrap().clone(), lg.default_grammar().unwrap().clone());
                let text: String = list.iter().map(|&t| ['a', 'b', '0', ' ', '?'][t % 5]).collect();
                ctx.probe("characters");
                (
                    quiet::driven::characters(classes.clone(), dg, &text),
                    loud::driven::characters(classes.clone(), lg, &text),
                )
            }
        };
        SINK.with(|s| s.borrow_mut().fail_at = None);
        let Outcome::Done(want) = want else { return violation("panic without log", format!("round {round}: {list:?}")) };
        ev!(ctx, "round {round} way {which} {list:?} sink {sink}: {want}");
        match got {
            Outcome::Done(got) => {
                ensure!(got == want, "log-visible", "round {round} {list:?}: with log {got}, without {want}");
            }
            Outcome::Injected(k) => {
                ctx.fired(k);
                ctx.nontrivial = true;
            }
            Outcome::Panicked(m) => return violation("panic with log", format!("round {round}: {list:?}: {m}")),
        }
        for (what, r) in [("quiet", q.reset()), ("loud", l.reset())] {
            if let Outcome::Panicked(m) = r {
                return violation("panic", format!("reset, {what}: {m}"));
            }
        }
        ctx.fired("reset");
        ctx.span_end(s0);
    }
    if SINK.with(|s| s.borrow().records) > 10 {
        ctx.nontrivial = true;
    }
    ctx.probe("driven");
    Ok(())
}

fn l01(ctx: &mut Ctx) -> R {
    #[cfg(feature = "default-grammar")]
    if ctx.chance(1, 4) {
        return driven(ctx);
    }
    let unambiguous = ctx.chance(1, 2);
    let g = gen_grammar(ctx, &GenOpts { unambiguous, ..Default::default() });
    let kind = draw_kind(ctx);
    let limit = draw_limit(ctx);
    let failing = ctx.chance(1, 2);
    let levels = ctx.chance(1, 12);
    // Sessions before, each ended by a reset; the steps at which the sink is switched.
    let mut script: Vec<X> = vec![];
    for _ in 0..1 + ctx.below(2) {
        script.extend(abandoned(ctx, &g, ScriptOpts { fuses: false, recreate: true, max_len: 10 }));
    }
    let ops = judged(ctx, &g, 10, true);
    let first_judged = script.len();
    script.extend(ops.into_iter().map(|x| X::Op(x.0)));
    let rate = 1 + ctx.below(8);
    let mut switches: Vec<Vec<Sw>> = vec![];
    for k in 0..script.len() {
        let mut v = vec![];
        if k == 0 && ctx.chance(2, 3) {
            v.push(Sw::Sink(true));
        }
        if ctx.chance(rate, 16) {
            v.push(draw_switch(ctx, levels));
        }
        if failing && k < first_judged && ctx.chance(1, 6) {
            let n = 1 + ctx.below(30) as u64;
            let how = draw_fail(ctx);
            v.push(Sw::Arm(n, how));
        }
        switches.push(v);
    }
    ev!(ctx, "forest {kind:?} limit {limit}, steps (judged from {first_judged}):");
    for (k, x) in script.iter().enumerate() {
        for s in &switches[k] {
            ev!(ctx, "  [{k}] log: {s:?}");
        }
        ev!(ctx, "  [{k}] {x:?}");
    }
    ctx.steps += script.len() as u64;
    let _restore = Restore;
    let (_r, _w) = if levels {
        (None, Some((LEVEL.write().unwrap_or_else(|e| e.into_inner()), RestoreLevel)))
    } else {
        (Some(LEVEL.read().unwrap_or_else(|e| e.into_inner())), None)
    };
    set(&Sw::Sink(false));
    let mut q = quiet::session::Machine::new(&g, SimForest::new(kind, &g, 64, true), limit);
    let again = if levels { None } else { under_log(ctx, &g, failing) };
    let lg = again.as_ref().unwrap_or(&g);
    let mut l = loud::session::Machine::new(lg, SimForest::new(kind, lg, 64, true), limit);
    // A failed step leaves the session unusable until it is reset.
    let mut failed = false;
    for (k, x) in script.iter().enumerate() {
        if k == first_judged {
            // No more failures from here on.
            SINK.with(|s| s.borrow_mut().fail_at = None);
            if failed {
                // The reset at the end of the last session may have failed, too: do it again.
                ctx.probe("reset-again");
                let _ = l.step(&X::Reset);
                let _ = q.step(&X::Reset);
                failed = false;
            }
        }
        if failed && matches!(x, X::Reset | X::Recreate) {
            failed = false;
        }
        for s in &switches[k] {
            set(s);
            count(ctx, s);
        }
        let want = match q.step(x) {
            Ok(v) => v,
            Err(e) => return violation("panic without log", format!("step {k} {x:?}: {e}")),
        };
        let got = match l.step(x) {
            Ok(v) => v,
            Err(e) => return violation("panic with log", format!("step {k} {x:?}: {e}")),
        };
        if let [XObs::Failed(what)] = got[..] {
            ctx.fired(what);
            failed = true;
            ctx.nontrivial = true;
            continue;
        }
        if failed {
            continue;
        }
        ensure!(got == want, "log-visible", "step {k} {x:?}: with log {}, without {}", short(&got), short(&want));
    }
    let n = SINK.with(|s| s.borrow().records);
    if n > 10 {
        ctx.nontrivial = true;
        ctx.probe("records");
    }
    if n > 200 {
        ctx.probe("many-records");
    }
    if let Some(e) = l.s.forest.error() {
        fail!("forest-protocol", "{e}");
    }
    Ok(())
}

fn main() {
    log::set_logger(&Global).expect("the only logger");
    log::set_max_level(LevelFilter::Trace);
    simcore::main(&[Prop {
        id: "L01",
        scenario: l01,
        rule: "a run is one grammar, abandoned sessions and a judged one, on the recognizer with the log feature under a sink that is switched, fills up and fails, next to the recognizer without it; non-trivial if the sink failed or took more than ten records",
        real: &["gearley-recognizer with and without its log feature", "gearley-utils (drivers) with and without its log feature, in a quarter of the runs", "log", "gearley-default-grammar (in a third of the runs)", "gearley-vec2d", "gearley-forest", "simple-bocage", "compact-bocage"],
        stubs: &[
            "grammar tables (TestGrammar implements the Grammar trait over randomly drawn grammars)",
            "cfg-symbol, cfg-history, bit-matrix (absent crates, re-implemented)",
            "log sink (the simulator's)",
        ],
        assumptions: &[
            "one thread decides every step; the sink is the only way in which the log feature reaches outside",
            "a session whose sink failed is reset before it is used again",
        ],
        step_unit: "operations on recognizers (positions closed, tokens read, queries, resets)",
        quick_secs: 25,
        thorough_secs: 600,
        quick_max_runs: 0,
        must_hit: &["log-sink-panic", "log-sink-panic-midway", "log-sink-panic-late", "sink-full", "sink-switched-on", "sink-switched-off", "level-changed", "records", "many-records", "prepared-under-log", "preparation-interrupted", "driven", "words", "characters"],
    }]);
}
