//! Stand-in for the `c_lexer_logos` crate (not available offline): C tokens out of a text.

pub mod token {
    #[derive(Clone, Debug, PartialEq)]
    pub enum Token {
        Identifier(String),
        NumericLiteral(String),
        StringLiteral(String),
        EnumerationConstant(String),
        TypedefName,
        LineTerminator,
        EOF,
        LBrace,
        RBrace,
        LParen,
        RParen,
        LBracket,
        RBracket,
        Semicolon,
        Assign,
        Lt,
        Gt,
        Minus,
        Tilde,
        Exclamation,
        Plus,
        Multi,
        Slash,
        Colon,
        QuestionMark,
        Comma,
        Dot,
        SingleAnd,
        InclusiveOr,
        ExclusiveOr,
        Mod,
        PtrOp,
        IncOp,
        DecOp,
        LeftOp,
        RightOp,
        LeOp,
        GeOp,
        EqOp,
        NeOp,
        AndOp,
        OrOp,
        MulAssign,
        DivAssign,
        ModAssign,
        AddAssign,
        SubAssign,
        LeftAssign,
        RightAssign,
        AndAssign,
        XorAssign,
        OrAssign,
        ELLIPSIS,
        AUTO,
        BREAK,
        CASE,
        CHAR,
        CONST,
        CONTINUE,
        DEFAULT,
        DO,
        DOUBLE,
        ELSE,
        ENUM,
        EXTERN,
        FLOAT,
        FOR,
        GOTO,
        IF,
        INLINE,
        INT,
        LONG,
        REGISTER,
        RESTRICT,
        RETURN,
        SHORT,
        SIGNED,
        SIZEOF,
        STATIC,
        STRUCT,
        SWITCH,
        TYPEDEF,
        UNION,
        UNSIGNED,
        VOID,
        VOLATILE,
        WHILE,
        BOOL,
        COMPLEX,
        IMAGINARY,
        ALIGNAS,
        ALIGNOF,
        ATOMIC,
        GENERIC,
        NORETURN,
        StaticAssert,
        ThreadLocal,
        FuncName,
    }
}

use token::Token::{self, *};

/// Longest first.
const OPERATORS: &[(&str, Token)] = &[
    ("<<=", LeftAssign),
    (">>=", RightAssign),
    ("...", ELLIPSIS),
    ("->", PtrOp),
    ("++", IncOp),
    ("--", DecOp),
    ("<<", LeftOp),
    (">>", RightOp),
    ("<=", LeOp),
    (">=", GeOp),
    ("==", EqOp),
    ("!=", NeOp),
    ("&&", AndOp),
    ("||", OrOp),
    ("*=", MulAssign),
    ("/=", DivAssign),
    ("%=", ModAssign),
    ("+=", AddAssign),
    ("-=", SubAssign),
    ("&=", AndAssign),
    ("^=", XorAssign),
    ("|=", OrAssign),
    ("{", LBrace),
    ("}", RBrace),
    ("(", LParen),
    (")", RParen),
    ("[", LBracket),
    ("]", RBracket),
    (";", Semicolon),
    ("=", Assign),
    ("<", Lt),
    (">", Gt),
    ("-", Minus),
    ("~", Tilde),
    ("!", Exclamation),
    ("+", Plus),
    ("*", Multi),
    ("/", Slash),
    (":", Colon),
    ("?", QuestionMark),
    (",", Comma),
    (".", Dot),
    ("&", SingleAnd),
    ("|", InclusiveOr),
    ("^", ExclusiveOr),
    ("%", Mod),
];

const KEYWORDS: &[(&str, Token)] = &[
    ("auto", AUTO),
    ("break", BREAK),
    ("case", CASE),
    ("char", CHAR),
    ("const", CONST),
    ("continue", CONTINUE),
    ("default", DEFAULT),
    ("do", DO),
    ("double", DOUBLE),
    ("else", ELSE),
    ("enum", ENUM),
    ("extern", EXTERN),
    ("float", FLOAT),
    ("for", FOR),
    ("goto", GOTO),
    ("if", IF),
    ("inline", INLINE),
    ("int", INT),
    ("long", LONG),
    ("register", REGISTER),
    ("restrict", RESTRICT),
    ("return", RETURN),
    ("short", SHORT),
    ("signed", SIGNED),
    ("sizeof", SIZEOF),
    ("static", STATIC),
    ("struct", STRUCT),
    ("switch", SWITCH),
    ("typedef", TYPEDEF),
    ("union", UNION),
    ("unsigned", UNSIGNED),
    ("void", VOID),
    ("volatile", VOLATILE),
    ("while", WHILE),
    ("_Bool", BOOL),
    ("_Complex", COMPLEX),
    ("_Imaginary", IMAGINARY),
    ("_Alignas", ALIGNAS),
    ("_Alignof", ALIGNOF),
    ("_Atomic", ATOMIC),
    ("_Generic", GENERIC),
    ("_Noreturn", NORETURN),
    ("_Static_assert", StaticAssert),
    ("_Thread_local", ThreadLocal),
    ("__func__", FuncName),
];

pub struct Lexer;

impl Lexer {
    pub fn lex(text: &str) -> Result<Vec<Token>, String> {
        let mut out = vec![];
        let mut rest = text;
        'all: while let Some(c) = rest.chars().next() {
            if c.is_whitespace() {
                rest = &rest[c.len_utf8()..];
                continue;
            }
            let run = |f: fn(char) -> bool| rest.find(|c| !f(c)).unwrap_or(rest.len());
            if c.is_ascii_digit() {
                let n = run(|c| c.is_ascii_alphanumeric() || c == '.');
                out.push(NumericLiteral(rest[..n].to_string()));
                rest = &rest[n..];
                continue;
            }
            if c == '_' || c.is_ascii_alphabetic() {
                let n = run(|c| c == '_' || c.is_ascii_alphanumeric());
                let word = &rest[..n];
                out.push(match KEYWORDS.iter().find(|k| k.0 == word) {
                    Some(k) => k.1.clone(),
                    None => Identifier(word.to_string()),
                });
                rest = &rest[n..];
                continue;
            }
            if c == '"' || c == '\'' {
                let mut escaped = false;
                let end = rest.char_indices().skip(1).find(|&(_, d)| {
                    let end = d == c && !escaped;
                    escaped = d == '\\' && !escaped;
                    end
                });
                let Some((n, _)) = end else { return Err(format!("unclosed: {rest}")) };
                let inner = rest[1..n].to_string();
                out.push(if c == '"' { StringLiteral(inner) } else { NumericLiteral(inner) });
                rest = &rest[n + 1..];
                continue;
            }
            for (s, t) in OPERATORS {
                if let Some(r) = rest.strip_prefix(s) {
                    out.push(t.clone());
                    rest = r;
                    continue 'all;
                }
            }
            return Err(format!("not a token: {rest}"));
        }
        Ok(out)
    }
}
