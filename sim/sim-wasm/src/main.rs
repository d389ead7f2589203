//! W01: the browser front end, one simulated page per process: histories of calls with broken grammars, unreadable inputs,
//! unknown modes, panics and strangers' log records in between, each call compared with the same call on a fresh page.

#[path = "../../sim-parse/src/gram.rs"]
#[allow(dead_code)]
mod gram;
#[path = "../../sim-parse/src/refs.rs"]
#[allow(dead_code)]
mod refs;

mod page;

use gram::{GenOpts, Orig};
use page::*;
use refs::OrigRef;
use simcore::*;

/// Lexemes of C and the names under which `gearley-example-grammars` knows them.
const C: &[(&str, &str)] = &[
    ("{", "lbrace"), ("}", "rbrace"), ("(", "lparen"), (")", "rparen"), ("[", "lbracket"), ("]", "rbracket"),
    (";", "semicolon"), ("=", "equal"), ("<", "langle"), (">", "rangle"), ("-", "minus"), ("~", "tilde"),
    ("!", "exclamation"), ("+", "plus"), ("*", "star"), ("/", "slash"), (":", "colon"), ("?", "question"),
    (",", "comma"), (".", "dot"), ("&", "ampersand"), ("|", "pipe"), ("^", "xor"), ("%", "percent"),
    ("x1", "identifier"), ("12", "constant"), ("\"t\"", "string_literal"), ("sizeof", "sizeof_"), ("->", "ptr_op"),
    ("++", "inc_op"), ("--", "dec_op"), ("<<", "left_op"), (">>", "right_op"), ("<=", "le_op"), (">=", "ge_op"),
    ("==", "eq_op"), ("!=", "ne_op"), ("&&", "and_op"), ("||", "or_op"), ("*=", "mul_assign"), ("/=", "div_assign"),
    ("%=", "mod_assign"), ("+=", "add_assign"), ("-=", "sub_assign"), ("<<=", "left_assign"), (">>=", "right_assign"),
    ("&=", "and_assign"), ("^=", "xor_assign"), ("|=", "or_assign"), ("...", "elipsis"), ("typedef", "typedef"),
    ("extern", "extern_"), ("static", "static_"), ("register", "register"), ("inline", "inline"), ("const", "const_"),
    ("restrict", "restrict"), ("volatile", "volatile"), ("_Bool", "bool_"), ("char", "char_"), ("short", "short"),
    ("int", "int"), ("long", "long"), ("signed", "signed"), ("unsigned", "unsigned"), ("float", "float"),
    ("double", "double"), ("void", "void"), ("_Complex", "complex"), ("_Imaginary", "imaginary"), ("struct", "struct_"),
    ("union", "union"), ("enum", "enum_"), ("case", "case"), ("default", "default"), ("if", "if_"), ("else", "else_"),
    ("switch", "switch"), ("while", "while_"), ("do", "do_"), ("for", "for_"), ("goto", "goto"),
    ("continue", "continue_"), ("break", "break_"), ("return", "return_"),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Basic,
    CLexer,
    Advanced,
}

/// A grammar as it is typed into the page.
struct Typed {
    mode: Mode,
    orig: Orig,
    text: String,
    /// For each terminal its words, lexemes or characters.
    spell: Vec<Vec<String>>,
}

fn typed(ctx: &mut Ctx) -> Typed {
    let s0 = ctx.span_start();
    let unambiguous = ctx.chance(1, 2);
    let orig = gram::gen_orig(ctx, &GenOpts { unambiguous, small: true, ..Default::default() });
    let mut mode = *ctx.pick(&[Mode::Basic, Mode::CLexer, Mode::Advanced]);
    if orig.tt > 30 {
        mode = Mode::Basic;
    }
    let mut spell: Vec<Vec<String>> = vec![];
    let mut names: Vec<String> = vec![];
    match mode {
        Mode::Basic => {
            let odd = ctx.chance(1, 4);
            for t in 0..orig.tt {
                let n = if odd { format!("ß{t}_") } else { format!("t{t}") };
                spell.push(vec![n.clone()]);
                names.push(n);
            }
        }
        Mode::CLexer => {
            let mut k = ctx.below(C.len() as u32) as usize;
            let mut used = vec![false; C.len()];
            for _ in 0..orig.tt {
                k = (k + 1 + ctx.below(7) as usize) % C.len();
                while used[k] {
                    k = (k + 1) % C.len();
                }
                used[k] = true;
                spell.push(vec![C[k].0.to_string()]);
                names.push(C[k].1.to_string());
            }
        }
        Mode::Advanced => {
            const CHARS: &[char] = &[
                'a', 'b', 'c', '0', '1', '+', ' ', 'ß', '–', '𝛼', '\u{301}', 'z', 'A', '_', '*', '(', ')', ';', '|', 'q',
                '2', '3', '4', '5', '6', '7', '8', '9', 'x', 'y',
            ];
            for t in 0..orig.tt {
                let mut v = vec![CHARS[t]];
                // Classes may overlap, so that a character can be several terminals.
                if ctx.chance(1, 4) {
                    let c = *ctx.pick(CHARS);
                    if !v.contains(&c) {
                        v.push(c);
                    }
                }
                let class: String = v.iter().collect();
                names.push(if v.len() == 1 && ctx.chance(1, 2) { format!("\"{class}\"") } else { format!("Regexp(\"[{class}]\")") });
                spell.push(v.iter().map(|c| c.to_string()).collect());
            }
        }
    }
    let tilde = mode == Mode::Advanced && ctx.chance(1, 2);
    let lines = ctx.chance(1, 2);
    let mut text = String::new();
    let mut order: Vec<usize> = (0..orig.rules.len()).collect();
    // The start symbol's first rule comes first.
    let first = orig.rules.iter().position(|r| r.0 == 0).unwrap();
    ctx.shuffle(&mut order[..]);
    order.retain(|&i| i != first);
    order.insert(0, first);
    for (k, &i) in order.iter().enumerate() {
        let (l, r) = &orig.rules[i];
        if k > 0 && orig.rules[order[k - 1]].0 == *l {
            text.pop();
            text.push_str(" | ");
        } else {
            if k > 0 {
                text.push(if lines { '\n' } else { ' ' });
            }
            text.push_str(&format!("n{l} ::= "));
        }
        if r.is_empty() {
            text.push_str("()");
        } else {
            let v: Vec<String> =
                r.iter().map(|&s| if s < orig.nt { format!("n{s}") } else { names[s - orig.nt].clone() }).collect();
            text.push_str(&v.join(if tilde { " ~ " } else { " " }));
        }
        text.push(';');
    }
    ctx.span_end(s0);
    Typed { mode, orig, text, spell }
}

/// What the reference says of a call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Log,
    NotASentence,
    NotAGrammar,
    UnknownMode,
    Panics,
    Anything,
}

/// Which terminals each token of the input can be, in the words of the reference.
fn sentence(o: &Orig, lattice: &[Vec<usize>]) -> bool {
    let mut r = OrigRef::new(o);
    for t in lattice {
        if !r.step(t) {
            return false;
        }
    }
    r.finished()
}

fn input(ctx: &mut Ctx, g: &Typed) -> (String, Want) {
    let s0 = ctx.span_start();
    let budget = ctx.below(10) as usize;
    let mut v = g.orig.sentence(ctx, budget);
    v.truncate(30);
    let term = |ctx: &mut Ctx| g.orig.nt + ctx.below(g.orig.tt as u32) as usize;
    match ctx.below(7) {
        0 => {
            let n = ctx.below(v.len() as u32 + 1) as usize;
            v.truncate(n);
        }
        1 if !v.is_empty() => {
            let i = ctx.below(v.len() as u32) as usize;
            v[i] = term(ctx);
        }
        2 => {
            let i = ctx.below(v.len() as u32 + 1) as usize;
            let t = term(ctx);
            v.insert(i, t);
        }
        _ => {}
    }
    let mut words: Vec<String> = vec![];
    for &t in &v {
        let s = &g.spell[t - g.orig.nt];
        let i = ctx.below(s.len() as u32) as usize;
        words.push(s[i].clone());
    }
    let mut lattice: Vec<Vec<usize>> = words
        .iter()
        .map(|w| (0..g.orig.tt).filter(|&t| g.spell[t].contains(w)).map(|t| g.orig.nt + t).collect())
        .collect();
    let mut bad = false;
    if ctx.chance(1, 8) {
        let i = ctx.below(words.len() as u32 + 1) as usize;
        let (w, panics) = match g.mode {
            Mode::Basic => (*ctx.pick(&["nope", "", "T0"]), false),
            Mode::CLexer => (*ctx.pick(&["@", "\"open", "#"]), true),
            Mode::Advanced => (*ctx.pick(&["€", "\n", "\0"]), false),
        };
        if panics {
            words.insert(i, w.to_string());
            ctx.probe("panicking-call");
            ctx.span_end(s0);
            return (words.join(" "), Want::Panics);
        }
        ctx.probe("unreadable-input");
        words.insert(i, w.to_string());
        lattice.insert(i, vec![]);
        bad = true;
    }
    let text = match g.mode {
        Mode::Advanced => words.concat(),
        _ => words.join(" "),
    };
    // "".split(" ") is one empty word.
    if g.mode == Mode::Basic && words.is_empty() {
        bad = true;
    }
    let want = if !bad && sentence(&g.orig, &lattice) { Want::Log } else { Want::NotASentence };
    ctx.span_end(s0);
    (text, want)
}

fn broken(ctx: &mut Ctx, g: &Typed) -> String {
    let cs: Vec<char> = g.text.chars().collect();
    for _ in 0..4 {
        let i = ctx.below(cs.len() as u32) as usize;
        let mut v = cs.clone();
        match ctx.below(3) {
            0 => v.truncate(i),
            1 => v[i] = '$',
            _ => v.insert(i, '"'),
        }
        let s: String = v.into_iter().collect();
        if !loads(&s, g.mode == Mode::Advanced) {
            return s;
        }
    }
    "::=".to_string()
}

/// The bundled grammars with their examples, the largest input last.
fn bundled() -> &'static [Call] {
    static ALL: std::sync::OnceLock<Vec<Call>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let ask = |c: Call| match on_page(&[c], Logger::None).map(|p| p.answers.into_iter().next()) {
            Ok(Some(Answer::Text(s))) => s.split('\x1f').map(String::from).collect(),
            _ => vec![],
        };
        let mut v = vec![];
        for g in ask(Call::Grammars).chunks_exact(4) {
            for e in ask(Call::Examples(g[0].clone())) {
                v.push(Call::Parse { input: e, grammar: g[3].clone(), mode: g[2].clone() });
            }
        }
        v.sort_by_key(|c| if let Call::Parse { input, .. } = c { input.len() } else { 0 });
        if v.len() < 2 {
            v = vec![Call::Grammars, Call::Grammars];
        }
        v
    })
}

fn draw_call(ctx: &mut Ctx, gs: &[Typed]) -> (Call, Want) {
    let g = ctx.pick(gs);
    let mode = match g.mode {
        Mode::Basic => "basic",
        Mode::CLexer => "c-lexer",
        Mode::Advanced => "advanced",
    };
    let parse = |input: String, grammar: &str, mode: &str| Call::Parse { input, grammar: grammar.to_string(), mode: mode.to_string() };
    match ctx.below(12) {
        0 => {
            let m = *ctx.pick(&["", "Basic", "c_lexer", "advanced "]);
            (parse(input(ctx, g).0, &g.text, m), Want::UnknownMode)
        }
        1 => {
            let i = input(ctx, g).0;
            let b = broken(ctx, g);
            (parse(i, &b, mode), Want::NotAGrammar)
        }
        2 => match ctx.below(5) {
            4 => {
                let all = bundled();
                let some = if ctx.chance(1, 15) {
                    ctx.probe("bundled-c");
                    &all[..]
                } else {
                    &all[..all.len() - 1]
                };
                ctx.probe("bundled-example");
                (ctx.pick(some).clone(), Want::Log)
            }
            0 => (Call::Grammars, Want::Anything),
            1 => (Call::Examples(ctx.pick(&["c", "ambiguous_math", "precedenced_math"]).to_string()), Want::Anything),
            2 => (Call::Examples("nope".into()), Want::Panics),
            _ => (Call::Logs, Want::Anything),
        },
        3 => {
            let n = 1 + ctx.below(3);
            (Call::Stranger(n), Want::Anything)
        }
        _ => {
            let (i, w) = input(ctx, g);
            (parse(i, &g.text, mode), w)
        }
    }
}

fn head(s: &str) -> String {
    if s.len() <= 1500 {
        return format!("{s:?}");
    }
    let a: String = s.chars().take(1000).collect();
    let mut b: Vec<char> = s.chars().rev().take(200).collect();
    b.reverse();
    format!("{a:?}...{:?} ({} bytes)", b.into_iter().collect::<String>(), s.len())
}

/// Where two texts part, for a message.
fn parting(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut i = n;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        head(&s[i..])
    };
    format!("at byte {n} {} instead of {}", cut(a), cut(b))
}

/// The text must be the message and then every record once, in order, with nothing but short labels in between.
fn complete(text: &str, message: &str, records: &[String]) -> Result<(), String> {
    let Some(mut rest) = text.strip_prefix(message) else {
        return Err(format!("the message is missing: {}", parting(text, message)));
    };
    for (i, r) in records.iter().enumerate() {
        match rest.find(&r[..]) {
            Some(n) if n <= 40 && !rest[..n].trim().contains('\n') => rest = &rest[n + r.len()..],
            Some(n) => return Err(format!("before record {i}: {}", head(&rest[..n]))),
            None => return Err(format!("record {i} of {} is missing: {}", records.len(), head(r))),
        }
    }
    if rest.trim().len() > 8 {
        return Err(format!("after the last record: {}", head(rest)));
    }
    Ok(())
}

fn w01(ctx: &mut Ctx) -> R {
    let gs: Vec<Typed> = (0..1 + ctx.below(2)).map(|_| typed(ctx)).collect();
    for g in &gs {
        ev!(ctx, "{:?} grammar {:?}", g.mode, g.text);
    }
    let taken = ctx.chance(1, 10);
    let mut pool: Vec<(Call, Want)> = vec![];
    for _ in 0..1 + ctx.below(4) {
        let s0 = ctx.span_start();
        let c = draw_call(ctx, &gs);
        pool.push(c);
        ctx.span_end(s0);
    }
    let mut history: Vec<usize> = vec![];
    for _ in 0..2 + ctx.below(7) {
        let s0 = ctx.span_start();
        history.push(ctx.below(pool.len() as u32) as usize);
        ctx.span_end(s0);
    }
    let logger = if taken { Logger::Deaf } else { Logger::None };
    let calls: Vec<Call> = history.iter().map(|&i| pool[i].0.clone()).collect();
    ctx.steps += calls.len() as u64;
    for (i, c) in pool.iter().enumerate() {
        ev!(ctx, "call {i}: {}, to be {:?}", head(&format!("{:?}", c.0)), c.1);
    }
    let got = match on_page(&calls, logger) {
        Ok(p) => p.answers,
        Err(e) => return violation("page-lost", format!("{e} at call {}", e.done)),
    };
    if taken {
        ctx.fired("logger-taken");
    }
    let mut fresh: Vec<Option<(Answer, Page)>> = pool.iter().map(|_| None).collect();
    let mut before: Vec<Want> = vec![];
    for (k, (&i, got)) in history.iter().zip(&got).enumerate() {
        let (call, want) = &pool[i];
        ev!(ctx, "[{k}] call {i}: {}", got.short());
        if !matches!(call, Call::Logs | Call::Stranger(_)) {
            if fresh[i].is_none() {
                let one = match on_page(&[call.clone()], logger) {
                    Ok(p) => p.answers.into_iter().next().unwrap(),
                    Err(e) => return violation("page-lost", format!("{e} on a fresh page, call {i}")),
                };
                let rec = match on_page(&[call.clone()], Logger::Records) {
                    Ok(p) => p,
                    Err(e) => return violation("page-lost", format!("{e} on a recording page, call {i}")),
                };
                fresh[i] = Some((one, rec));
            }
            let (alone, rec) = fresh[i].as_ref().unwrap();
            match (got, alone) {
                (Answer::Text(a), Answer::Text(b)) => {
                    ensure!(a == b, "calls-mix", "[{k}] call {i} after {} others answers {}", k, parting(a, b))
                }
                (a, b) => ensure!(a == b, "calls-mix", "[{k}] call {i} after {k} others: {} instead of {}", a.short(), b.short()),
            }
            match (want, got) {
                (Want::Panics, Answer::Panicked) => ctx.fired("panic-in-call"),
                (Want::Panics, a) => fail!("kind", "[{k}] call {i} must fail, but {}", a.short()),
                (_, Answer::Panicked) => fail!("kind", "[{k}] call {i} panicked, but is {want:?}"),
                (_, Answer::Text(s)) => {
                    let kind = if s.starts_with("Failed to load") {
                        Want::NotAGrammar
                    } else if s.starts_with("Failed to parse") {
                        Want::NotASentence
                    } else if s.starts_with("Unknown mode") {
                        Want::UnknownMode
                    } else {
                        Want::Log
                    };
                    if *want != Want::Anything {
                        ensure!(kind == *want, "kind", "[{k}] call {i} must be {want:?}, but is {kind:?}: {}", head(s));
                    }
                    match want {
                        Want::NotAGrammar => ctx.fired("broken-grammar"),
                        Want::NotASentence => ctx.fired("not-a-sentence"),
                        Want::UnknownMode => ctx.fired("unknown-mode"),
                        Want::Log => ctx.probe("sentence"),
                        _ => {}
                    }
                    if !taken && matches!(want, Want::Log | Want::NotAGrammar | Want::NotASentence) {
                        let Answer::Text(m) = &rec.answers[0] else {
                            fail!("kind", "[{k}] call {i} under another logger: {}", rec.answers[0].short())
                        };
                        if let Err(e) = complete(s, m, &rec.records) {
                            fail!("log-incomplete", "[{k}] call {i}: {e}");
                        }
                        if *want == Want::Log && rec.records.len() > 20 {
                            ctx.probe("long-log");
                        }
                    }
                    if *want == Want::Log && before.iter().any(|w| *w != Want::Log) {
                        ctx.nontrivial = true;
                        if before.contains(&Want::Panics) {
                            ctx.probe("log-after-panic");
                        }
                        if before.contains(&Want::UnknownMode) {
                            ctx.probe("log-after-unknown-mode");
                        }
                        if before.contains(&Want::NotAGrammar) {
                            ctx.probe("log-after-broken-grammar");
                        }
                    }
                    match call {
                        Call::Parse { mode, .. } if *want == Want::Log => match &mode[..] {
                            "basic" => ctx.probe("basic"),
                            "advanced" => ctx.probe("advanced"),
                            _ => ctx.probe("c-lexer"),
                        },
                        _ => {}
                    }
                }
            }
        } else if matches!(call, Call::Stranger(_)) {
            ctx.fired("stranger-logs");
        }
        before.push(*want);
    }
    Ok(())
}

fn main() {
    simcore::main(&[Prop {
        id: "W01",
        scenario: w01,
        rule: "a run is up to two typed grammars and a history of two to eight calls on one simulated page (a process of its own), each call compared with the same call on a fresh page and with the records a foreign logger sees; non-trivial if a parse succeeded after a call that did not",
        real: &["gearley-wasm", "gearley (facade)", "gearley-example-grammars", "gearley-utils with its log feature", "gearley-recognizer with its log feature", "gearley-default-grammar", "simple-bocage", "gearley-vec2d", "gearley-forest", "log", "wasm-bindgen (native)", "spin", "once_cell"],
        stubs: &[
            "talc (the system's allocator under its names), c_lexer_logos, cfg-load's loader (a small dialect), cfg, cfg-symbol, cfg-history, bit-matrix (absent crates, re-implemented)",
            "browser (one process per page; wasm-only code is not compiled)",
        ],
        assumptions: &["calls on one page follow one another", "a call that panics is survived by the page"],
        step_unit: "calls on the page under test",
        quick_secs: 25,
        thorough_secs: 600,
        quick_max_runs: 0,
        must_hit: &["panic-in-call", "broken-grammar", "not-a-sentence", "unknown-mode", "stranger-logs", "logger-taken", "sentence", "long-log", "log-after-panic", "log-after-unknown-mode", "log-after-broken-grammar", "basic", "advanced", "c-lexer", "unreadable-input", "bundled-example", "bundled-c"],
    }]);
}
