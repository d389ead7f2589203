//! The layers above the recognizer: saved grammars (G01) and the bundled parse driver (D01).

#[path = "../../sim-parse/src/forests.rs"]
mod forests;
#[path = "../../sim-parse/src/gram.rs"]
mod gram;
#[allow(dead_code)]
#[path = "../../sim-parse/src/huge.rs"]
mod huge;
#[path = "../../sim-parse/src/ops.rs"]
mod ops;
#[path = "../../sim-parse/src/refs.rs"]
mod refs;
#[path = "../../sim-parse/src/session.rs"]
mod session;

mod drive;
mod lists;
mod saved;

use gearley_recognizer;
use simcore::Prop;

fn main() {
    simcore::main(&[
        Prop {
            id: "D01",
            scenario: drive::d01,
            rule: "a run is one grammar and up to five token lists given to the bundled driver one after another, with failing forest callbacks and resets in between; non-trivial if a list was parsed after a failure",
            real: &["gearley-utils (parse, parse_terminal_list, parse_tokenizing)", "gearley-recognizer", "gearley-default-grammar (in half of the runs)", "gearley-vec2d", "gearley-forest", "simple-bocage", "compact-bocage"],
            stubs: &[
                "grammar tables in half of the runs (TestGrammar implements the Grammar trait over randomly drawn grammars)",
                "cfg, cfg-symbol, cfg-history, cfg-load, bit-matrix (absent crates, re-implemented)",
            ],
            assumptions: &["tokens are terminals of the user's grammar, used by a rule or not", "a failed or finished parse is followed by a reset"],
            step_unit: "token lists driven",
            quick_secs: 25,
            thorough_secs: 600,
            quick_max_runs: 0,
            must_hit: &["forest-callback-panic", "reset", "parse-error", "proper-beginning", "sentence", "unused-token", "after-a-failure", "words", "characters", "unknown-word", "default-grammar", "long-list", "long-list-evaluated", "long-words", "long-text"],
        },
        Prop {
            id: "G01",
            scenario: saved::g01,
            rule: "a run is one grammar, saved and restored in up to four generations over a simulated disk that tears and loses writes, and sessions on all generations in lockstep; non-trivial if a restored grammar read a position",
            real: &["gearley-default-grammar", "gearley-grammar", "gearley-recognizer", "gearley-vec2d", "gearley-forest", "simple-bocage", "compact-bocage", "serde_json", "miniserde"],
            stubs: &[
                "cfg, cfg-symbol, cfg-history, bit-matrix with its serialisation (absent crates, re-implemented)",
                "disk (the simulator's)",
            ],
            assumptions: &["an image is written by serde_json, miniserde or bincode", "a torn write leaves a prefix of the image"],
            step_unit: "operations on recognizers and on the disk",
            quick_secs: 25,
            thorough_secs: 600,
            quick_max_runs: 0,
            must_hit: &["crash-torn-write", "crash-lost-write", "saved-serde", "saved-miniserde", "saved-bincode", "second-generation", "mixed-forest", "older-file", "reset", "forest-callback-panic"],
        },
    ]);
}
