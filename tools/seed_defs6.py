W = "gearley-wasm/src/lib.rs"
WASM = '\ngearley-wasm = { path = "wrap/gearley-wasm" }\n'

bug("w01-log-cap", "W01", W,
"""            let msg = format!("[{}] - {}\\n", record.level(), record.args());
            buffer.push_str(&msg);
""",
"""            let msg = format!("[{}] - {}\\n", record.level(), record.args());
            // Don't reallocate while logging.
            if buffer.capacity() == 0 || buffer.len() + msg.len() <= buffer.capacity() || buffer.len() < 4096 {
                buffer.push_str(&msg);
            }
""",
"a call whose log is longer than a few kilobytes, once the preallocated buffer is gone",
"records are missing from the log",
r'''
fn main() {
    let g = "s ::= s s | a;";
    let lines = |n: usize| gearley_wasm::parse(&vec!["a"; n].join(" "), g, "basic").lines().count();
    for n in 2..20 {
        assert!(lines(n + 1) > lines(n) + 2, "{n}");
    }
}
''', extra=WASM)

bug("w01-grammar-kept", "W01", W,
"""    let _ = init_logger();
    let cfg = Cfg::load(&grammar[..])?;
    let grammar = DefaultGrammar::from_grammar(cfg.clone());
    Ok((cfg, grammar))
""",
"""    thread_local! {
        static LAST: RefCell<Option<(String, Cfg, DefaultGrammar)>> = const { RefCell::new(None) };
    }
    let _ = init_logger();
    // Most calls are about the grammar of the call before.
    if let Some((_, cfg, prepared)) = LAST.with(|l| l.borrow().clone()).filter(|l| l.0 == grammar) {
        return Ok((cfg, prepared));
    }
    let cfg = Cfg::load(&grammar[..])?;
    let prepared = DefaultGrammar::from_grammar(cfg.clone());
    LAST.with(|l| *l.borrow_mut() = Some((grammar.to_string(), cfg.clone(), prepared.clone())));
    Ok((cfg, prepared))
""",
"two calls in a row with one grammar in a mode other than advanced",
"the second call's log lacks the records of the grammar's preparation",
r'''
fn main() {
    let (g, h) = ("s ::= a s | b;", "s ::= b;");
    let want = gearley_wasm::parse("a b", g, "basic");
    gearley_wasm::parse("b", h, "basic");
    assert!(gearley_wasm::parse("a b", g, "basic") == want);
    assert!(gearley_wasm::parse("a b", g, "basic") == want);
}
''', extra=WASM)

bug("w01-load-error-alone", "W01", W,
"""                Err(mut load_error) => {
                    trace!("failed to load");
                    let mut result = "Failed to load:\\n".to_string();
                    result.push_str(&load_error.to_string());
                    result.push_str(&get_logs()[..]);
                    result
                }
""",
"""                Err(mut load_error) => {
                    let logs = get_logs();
                    trace!("failed to load");
                    let mut result = "Failed to load:\\n".to_string();
                    result.push_str(&load_error.to_string());
                    result.push_str(&logs[..]);
                    result
                }
""",
"a grammar that doesn't load, given in the mode for C",
"the record of the failure is missing from that call's log",
r'''
fn main() {
    let r = gearley_wasm::parse("a", "s ::= ", "c-lexer");
    assert!(r.starts_with("Failed to load"), "{r}");
    assert!(r.contains("c-lexer load"), "{r}");
    assert!(r.contains("failed to load"), "{r}");
    assert!(!gearley_wasm::parse("x", "s ::= identifier;", "basic").contains("failed to load"));
}
''', extra=WASM)

bug("w01-shift-assign", "W01", W,
"""            RightAssign => Some("right_assign"),
            AndAssign => Some("and_assign"),
            XorAssign => Some("xor_assign"),
            OrAssign => Some("or_assign"),
""",
"""            AndAssign => Some("and_assign"),
            XorAssign => Some("xor_assign"),
            OrAssign | RightAssign => Some("or_assign"),
""",
"an input with the token >>= in the mode for C",
"a sentence is rejected, and an input that is none is accepted",
r'''
fn main() {
    let g = "s ::= identifier op identifier; op ::= left_assign | right_assign;";
    for op in ["<<=", ">>="] {
        let r = gearley_wasm::parse(&format!("a {op} b"), g, "c-lexer");
        assert!(!r.starts_with("Failed"), "{op}");
    }
    for op in ["|=", "&=", ">>"] {
        let r = gearley_wasm::parse(&format!("a {op} b"), g, "c-lexer");
        assert!(r.starts_with("Failed to parse"), "{op}");
    }
}
''', extra=WASM)

bug("w01-start-over", "W01", W,
"""            let msg = format!("[{}] - {}\\n", record.level(), record.args());
            buffer.push_str(&msg);
""",
"""            let msg = format!("[{}] - {}\\n", record.level(), record.args());
            // Abandoned calls leave their log behind: don't let it grow for ever.
            if buffer.len() > 1 << 25 {
                *buffer = msg;
            } else {
                buffer.push_str(&msg);
            }
""",
"a call whose log is longer than 32 megabytes",
"the log of a long parse lacks its beginning",
r'''
fn main() {
    let g = "s ::= s a | a;";
    for n in [2, 50, 400, 50_000] {
        let log = gearley_wasm::parse(&vec!["a"; n].join(" "), g, "basic");
        eprintln!("{n}: {} bytes", log.len());
        assert!(log.starts_with("[TRACE] - begin"), "{n}");
        assert_eq!(log.matches("make_proper").count(), 1, "{n}");
    }
}
''', extra=WASM)
