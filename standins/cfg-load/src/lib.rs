//! Stand-in for pczarn/cfg's `cfg-load` crate (not available offline): only the map from characters to terminals that
//! `gearley_utils::parse_tokenizing` reads.

pub mod advanced {
    use cfg::{Cfg, Symbol};
    use std::collections::BTreeMap;

    #[derive(Clone, Debug, Default)]
    pub struct LexerMap {
        classes: Vec<(char, Symbol)>,
        map: BTreeMap<char, Vec<Symbol>>,
    }

    impl LexerMap {
        pub fn insert(&mut self, ch: char, sym: Symbol) {
            self.classes.push((ch, sym));
        }
        /// Must be called before `get`.
        pub fn compute(&mut self) {
            self.map.clear();
            for &(ch, sym) in &self.classes {
                self.map.entry(ch).or_default().push(sym);
            }
        }
        /// All terminals that a character can be.
        pub fn get(&self, ch: char) -> &[Symbol] {
            self.map.get(&ch).map_or(&[], |v| &v[..])
        }
    }

    #[derive(Clone, Debug)]
    pub struct AdvancedGrammar {
        pub cfg: Cfg,
        pub lexer_map: LexerMap,
    }
}

use advanced::{AdvancedGrammar, LexerMap};
use cfg::{Cfg, Symbol};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug)]
pub struct LoadError {
    line: usize,
    what: String,
}

impl fmt::Display for LoadError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "line {}: {}", self.line, self.what)
    }
}

impl std::error::Error for LoadError {}

pub trait CfgLoadExt: Sized {
    fn load(text: &str) -> Result<Self, LoadError>;
}

pub trait CfgLoadAdvancedExt {
    fn load_advanced(text: &str) -> Result<AdvancedGrammar, LoadError>;
}

impl CfgLoadExt for Cfg {
    fn load(text: &str) -> Result<Cfg, LoadError> {
        let l = Loader::load(text)?;
        match l.classes.is_empty() {
            true => Ok(l.cfg),
            false => Err(LoadError { line: 1, what: "characters in a plain grammar".into() }),
        }
    }
}

impl CfgLoadAdvancedExt for Cfg {
    fn load_advanced(text: &str) -> Result<AdvancedGrammar, LoadError> {
        let l = Loader::load(text)?;
        let mut lexer_map = LexerMap::default();
        for (chars, sym) in &l.classes {
            for &ch in chars {
                lexer_map.insert(ch, *sym);
            }
        }
        Ok(AdvancedGrammar { cfg: l.cfg, lexer_map })
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Piece {
    Name(String),
    Text(String),
    Mark(&'static str),
}

/// Rules `name ::= a b | () | "text" | Regexp("[0-9]+");`, with or without `~` between symbols, and a block `lexer {}`
/// of further rules. The first rule's left side is the start symbol.
struct Loader {
    cfg: Cfg,
    names: BTreeMap<String, Symbol>,
    classes: Vec<(Vec<char>, Symbol)>,
    pieces: Vec<(usize, Piece)>,
    at: usize,
}

impl Loader {
    fn load(text: &str) -> Result<Self, LoadError> {
        let pieces = Self::pieces(text)?;
        let mut l =
            Loader { cfg: Cfg::new(), names: BTreeMap::new(), classes: vec![], pieces, at: 0 };
        let mut root = None;
        let mut block = false;
        while let Some(p) = l.next() {
            match p {
                Piece::Name(n) if n == "lexer" && !block && l.peek() == Some(&Piece::Mark("{")) => {
                    l.at += 1;
                    block = true;
                }
                Piece::Mark("}") if block => block = false,
                Piece::Name(n) => {
                    let lhs = l.sym(n);
                    root.get_or_insert(lhs);
                    l.expect("::=")?;
                    loop {
                        let rhs = l.alternative()?;
                        l.cfg.rule(lhs).rhs(rhs);
                        match l.next() {
                            Some(Piece::Mark("|")) => {}
                            Some(Piece::Mark(";")) => break,
                            _ => return l.fail("expected | or ;"),
                        }
                    }
                }
                _ => return l.fail("expected a rule"),
            }
        }
        if block {
            return l.fail("unclosed block");
        }
        match root {
            Some(r) => l.cfg.set_roots([r]),
            None => return l.fail("no rules"),
        }
        Ok(l)
    }

    fn fail<T>(&self, what: &str) -> Result<T, LoadError> {
        let line = self.pieces.get(self.at.saturating_sub(1)).or(self.pieces.last()).map_or(1, |p| p.0);
        Err(LoadError { line, what: what.to_string() })
    }

    fn pieces(text: &str) -> Result<Vec<(usize, Piece)>, LoadError> {
        const MARKS: &[&str] = &["::=", "|", ";", "~", "(", ")", "{", "}"];
        let mut out = vec![];
        for (line, mut rest) in text.split('\n').enumerate().map(|(i, l)| (i + 1, l)) {
            'line: while let Some(c) = rest.chars().next() {
                if c.is_whitespace() {
                    rest = &rest[c.len_utf8()..];
                    continue;
                }
                for m in MARKS {
                    if let Some(r) = rest.strip_prefix(m) {
                        out.push((line, Piece::Mark(m)));
                        rest = r;
                        continue 'line;
                    }
                }
                if c == '"' {
                    let Some(n) = rest[1..].find('"') else {
                        return Err(LoadError { line, what: "unclosed text".into() });
                    };
                    out.push((line, Piece::Text(rest[1..1 + n].to_string())));
                    rest = &rest[n + 2..];
                    continue;
                }
                let n = rest.find(|c: char| c != '_' && !c.is_alphanumeric()).unwrap_or(rest.len());
                if n == 0 {
                    return Err(LoadError { line, what: format!("unexpected {c:?}") });
                }
                out.push((line, Piece::Name(rest[..n].to_string())));
                rest = &rest[n..];
            }
        }
        Ok(out)
    }

    fn peek(&self) -> Option<&Piece> {
        self.pieces.get(self.at).map(|p| &p.1)
    }
    fn next(&mut self) -> Option<Piece> {
        let p = self.peek().cloned();
        self.at += 1;
        p
    }
    fn expect(&mut self, m: &'static str) -> Result<(), LoadError> {
        match self.next() {
            Some(Piece::Mark(n)) if n == m => Ok(()),
            _ => self.fail(&format!("expected {m}")),
        }
    }
    fn sym(&mut self, name: String) -> Symbol {
        if let Some(&s) = self.names.get(&name) {
            return s;
        }
        let s = self.cfg.next_sym(Some(name.clone().into()));
        self.names.insert(name, s);
        s
    }
    /// The terminal of these characters.
    fn class(&mut self, chars: Vec<char>) -> Symbol {
        if let Some(c) = self.classes.iter().find(|c| c.0 == chars) {
            return c.1;
        }
        let s = self.cfg.next_sym(None);
        self.classes.push((chars, s));
        s
    }
    fn alternative(&mut self) -> Result<Vec<Symbol>, LoadError> {
        let mut rhs = vec![];
        loop {
            match self.peek().cloned() {
                Some(Piece::Mark("(")) if rhs.is_empty() => {
                    self.at += 1;
                    self.expect(")")?;
                    return Ok(rhs);
                }
                Some(Piece::Mark("~")) if !rhs.is_empty() => self.at += 1,
                Some(Piece::Text(t)) => {
                    self.at += 1;
                    for ch in t.chars() {
                        let s = self.class(vec![ch]);
                        rhs.push(s);
                    }
                }
                Some(Piece::Name(n)) if n == "Regexp" => {
                    self.at += 1;
                    self.expect("(")?;
                    let Some(Piece::Text(t)) = self.next() else { return self.fail("expected a text") };
                    self.expect(")")?;
                    rhs.push(self.regexp(&t)?);
                }
                Some(Piece::Name(n)) => {
                    self.at += 1;
                    let s = self.sym(n);
                    rhs.push(s);
                }
                _ if rhs.is_empty() => {
                    self.at += 1;
                    return self.fail("expected a symbol");
                }
                _ => return Ok(rhs),
            }
        }
    }
    /// A class of characters, perhaps repeated.
    fn regexp(&mut self, t: &str) -> Result<Symbol, LoadError> {
        let (t, plus) = match t.strip_suffix('+') {
            Some(t) => (t, true),
            None => (t, false),
        };
        let Some(inner) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) else {
            return self.fail("not a class");
        };
        let mut chars = vec![];
        let v: Vec<char> = inner.chars().collect();
        let mut i = 0;
        while i < v.len() {
            if i + 2 < v.len() && v[i + 1] == '-' {
                chars.extend(v[i]..=v[i + 2]);
                i += 3;
            } else {
                chars.push(v[i]);
                i += 1;
            }
        }
        if chars.is_empty() {
            return self.fail("empty class");
        }
        let c = self.class(chars);
        if !plus {
            return Ok(c);
        }
        let many = self.cfg.next_sym(None);
        self.cfg.rule(many).rhs([c]);
        self.cfg.rule(many).rhs([many, c]);
        Ok(many)
    }
}
