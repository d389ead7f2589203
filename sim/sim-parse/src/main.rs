mod basic;
mod cost;
mod evals;
mod forests;
mod gram;
mod huge;
mod ops;
mod policy;
mod refs;
mod script;
mod session;
mod stream;
mod veto;

#[global_allocator]
static ALLOC: stream::Counting = stream::Counting;

use gearley_recognizer;
use simcore::Prop;

#[cfg(feature = "default-grammar")]
const REAL: &[&str] = &["gearley-recognizer", "gearley-vec2d", "gearley-grammar (trait)", "gearley-default-grammar (in a third of the runs)", "gearley-forest", "simple-bocage", "compact-bocage"];
#[cfg(not(feature = "default-grammar"))]
const REAL: &[&str] = &["gearley-recognizer", "gearley-vec2d", "gearley-grammar (trait)", "gearley-forest", "simple-bocage", "compact-bocage"];
const STUBS: &[&str] = &[
    "grammar tables in two thirds of the runs (TestGrammar implements the Grammar trait over randomly drawn grammars)",
    "cfg, cfg-symbol, cfg-history, bit-matrix (absent crates, re-implemented)",
];

const fn prop(id: &'static str, scenario: fn(&mut simcore::Ctx) -> simcore::R, rule: &'static str, must_hit: &'static [&'static str]) -> Prop {
    Prop {
        id,
        scenario,
        rule,
        real: REAL,
        stubs: STUBS,
        assumptions: &[
            "one thread decides every step of every session; the code under test has no other source of nondeterminism",
            "the caller keeps to the documented order of calls (begin, scan, end)",
        ],
        step_unit: "operations on recognizers (positions closed, tokens read, queries, resets)",
        quick_secs: 25,
        thorough_secs: 600,
        quick_max_runs: 0,
        must_hit,
    }
}

fn main() {
    simcore::main(&[
        prop("R01", script::r01, "a run is one grammar, one to three sessions abandoned at drawn points, and a judged session after the reset, compared with a fresh recognizer; non-trivial if both parts have several operations", &["reset", "abandon-before-first-position", "abandon-after-begin", "abandon-with-tokens-scanned", "abandon-before-advance", "abandon-mid-group", "abandon-after-rejection", "abandon-with-hint-pending", "tower", "tower-past-2^16"]),
        prop("R05", script::r05, "a run is one grammar and two to four sessions interleaved by a drawn schedule, each compared with itself alone; non-trivial from four switches", &["forest-callback-panic", "reset", "recognizer-dropped", "threads", "one-thread", "moving-between-threads", "preempted-inside-a-step", "tower", "tower-past-2^16"]),
        prop("R08", veto::r08, "a run is one grammar and stream closed by hand under drawn refusals, compared with a chart that leaves the refused derivations out; non-trivial if it finished after a refusal", &["fragment-refused", "alternative-refused", "sum-abandoned", "finished-after-refusal", "dead-end", "tower", "tower-past-2^16", "tower-finished-after-refusal"]),
        prop("R11", script::r11, "a run is one grammar, one to three sessions in which a forest callback fails, and a judged session after the reset, compared with a fresh recognizer; non-trivial if a callback failed", &["forest-callback-panic", "reset", "tower", "tower-past-2^16"]),
        prop("R02", basic::r02, "a run is one grammar and token stream, read with and without rejected offers; non-trivial if something was rejected and two positions were closed", &["rejected-offer", "hint", "tower", "tower-past-2^16"]),
        prop("R03", basic::r03, "a run is one grammar and a stream of token sets, read in two deliveries; non-trivial if the order of a position differs", &["duplicated-token", "hint", "unacceptable-token-mixed-in", "reordered-tokens", "tower", "tower-past-2^16"]),
        prop("R04", basic::r04, "a run is one grammar and stream, read with and without hints; non-trivial if it finished or met an error after a token", &["hint", "hint-lost", "hint-overwritten", "hint-cleared", "hint-late", "hint-twice", "finished", "error", "tower", "tower-past-2^16"]),
        prop("R06", basic::r06, "a run is one grammar and stream with disturbances, every verdict compared with a reference; non-trivial if finished somewhere", &["reset", "query", "rejected-offer", "finished", "compacted", "more-than-8-sets", "more-than-256-sets", "tower", "tower-past-2^16"]),
        prop("R07", basic::r07, "a run is one grammar and stream, completed by hand, automatically and mixed; non-trivial if a fragment was ambiguous", &["ambiguous-fragment", "many-fragments", "more-than-256-positions", "tower", "tower-past-2^16"]),
        prop("R10", basic::r10, "a run is one grammar and stream with reports compared at every position; non-trivial from two positions", &["query", "reset", "report", "more-than-256-positions", "tower", "tower-past-2^16"]),
        prop("R12", policy::r12, "a run is one grammar and one history of disturbed and undisturbed sessions, made under default and under drawn performance settings; non-trivial if at least three positions were closed", &["reset", "recognizer-dropped", "forest-callback-panic", "abandon-after-rejection", "hint", "nothing-reserved", "no-lookahead", "token-count-and-symbols", "finished"]),
        prop("R13", cost::r13, "a run is one grammar without conflicts and one to three sessions under truthful hints, abandoned or failed except the last, with the work at every position held against that of a shift-reduce parser; non-trivial from 20 tokens in the last", &["rejected-offer", "hint-overwritten", "reset", "forest-callback-panic", "abandoned-with-hint-pending", "finished", "deep-reductions"]),
        prop("R09", stream::r09, "a run is one grammar of nested left-recursive lists and 1500 to 36000 tokens; non-trivial from 1000 tokens", &["rejected-offer", "query", "hint", "hint-lost", "reset", "long-stream", "deeply-nested"]),
        prop("F01", evals::f01, "a run is one grammar and stream, read into a recording forest, with the trees behind the finished node of every position compared with those of a direct definition; non-trivial if finished somewhere", &["rejected-offer", "hint", "hint-lost", "ambiguous", "empty-input", "compacted", "same-terminal-twice", "tower", "tower-past-2^16", "tower-trees"]),
        prop("F02", evals::f02, "a run is one forest with earlier sessions and one session whose unambiguous results are evaluated; non-trivial if one of at least two tokens was", &["earlier-session", "rejected-offer", "fragment-refused", "sum-abandoned", "forest-callback-panic", "evaluated", "evaluated-after-refusal", "empty-symbols", "empty-input", "tower", "tower-past-2^16", "tower-evaluated"]),
        prop("F03", evals::f03, "as F02, with both forests in lockstep", &["earlier-session", "rejected-offer", "fragment-refused", "sum-abandoned", "forest-callback-panic", "evaluated", "evaluated-after-refusal", "empty-symbols", "empty-input", "grown-to-2^8", "grown-to-2^16", "grown-to-2^24", "tower", "tower-past-2^16", "tower-evaluated"]),
        prop("F04", evals::f04, "a run is one session whose finished nodes are kept and evaluated again and again, interrupted or not; non-trivial if one was evaluated after an evaluation or interruption", &["action-panic", "repeated", "evaluated-after-interruption", "several-kept-nodes", "tower", "tower-past-2^16", "tower-evaluated"]),
        prop("F05", evals::f05, "a run is one or both forests with earlier sessions and one session whose ambiguous results are evaluated, interrupted before or not; non-trivial if an ambiguous one was", &["earlier-session", "rejected-offer", "fragment-refused", "sum-abandoned", "forest-callback-panic", "action-panic", "ambiguous-evaluated", "over-100-trees", "same-terminal-twice", "over-255-trees", "hundreds-of-alternatives", "evaluated-after-refusal", "empty-symbols", "grown-to-2^8", "grown-to-2^16", "several-empty-values"]),
        prop("F06", evals::f06, "a run is one forest with earlier sessions and one session whose ambiguous results are evaluated, interrupted before or not, in lockstep with a session of other capacities and no past; non-trivial if an ambiguous result was", &["earlier-session", "reset", "rejected-offer", "fragment-refused", "sum-abandoned", "forest-callback-panic", "action-panic", "ambiguous-evaluated", "repeated", "hundreds-of-alternatives", "evaluated-after-refusal", "grown-to-2^8", "grown-to-2^16", "several-empty-values"]),
    ]);
}
