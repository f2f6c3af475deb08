//! C26: dividing text into tokens, against an independent reading of what C's tokens are.
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::front_end::lexer::{Lexer, Token};

const OPS: &[(&str, Token)] = &[
    ("!", Token::Bang), ("%", Token::Percent), ("^", Token::Caret), ("&", Token::Ampersand), ("*", Token::Asterisk), ("-", Token::Minus), ("+", Token::Plus), ("=", Token::Eq), ("~", Token::Tilde), ("|", Token::Bar),
    (".", Token::Dot), ("<", Token::LessThan), (">", Token::GreaterThan), ("/", Token::Slash), ("?", Token::Question), ("+=", Token::PlusEq), ("-=", Token::MinusEq), ("*=", Token::AsteriskEq), ("/=", Token::SlashEq),
    ("%=", Token::PercentEq), ("<<=", Token::LeftShiftEq), (">>=", Token::RightShiftEq), ("&=", Token::AmpersandEq), ("^=", Token::CaretEq), ("|=", Token::BarEq), ("->", Token::Arrow), ("++", Token::DoublePlus),
    ("--", Token::DoubleMinus), ("<<", Token::LeftShift), (">>", Token::RightShift), ("<=", Token::LessThanEq), (">=", Token::GreaterThanEq), ("==", Token::DoubleEq), ("!=", Token::BangEq), ("&&", Token::DoubleAmpersand),
    ("||", Token::DoubleBar), ("(", Token::LeftParen), (")", Token::RightParen), ("[", Token::LeftSquare), ("]", Token::RightSquare), ("{", Token::LeftCurly), ("}", Token::RightCurly), (",", Token::Comma), (";", Token::Semicolon),
    (":", Token::Colon), ("...", Token::Ellipsis),
];
const WORDS: &[(&str, Token)] = &[
    ("auto", Token::Auto), ("break", Token::Break), ("case", Token::Case), ("char", Token::Char), ("const", Token::Const), ("continue", Token::Continue), ("default", Token::Default), ("do", Token::Do), ("double", Token::Double),
    ("else", Token::Else), ("enum", Token::Enum), ("extern", Token::Extern), ("float", Token::Float), ("for", Token::For), ("goto", Token::Goto), ("if", Token::If), ("inline", Token::Inline), ("int", Token::Int), ("long", Token::Long),
    ("register", Token::Register), ("return", Token::Return), ("short", Token::Short), ("signed", Token::Signed), ("sizeof", Token::Sizeof), ("static", Token::Static), ("struct", Token::Struct), ("switch", Token::Switch),
    ("typedef", Token::Typedef), ("union", Token::Union), ("unsigned", Token::Unsigned), ("void", Token::Void), ("volatile", Token::Volatile), ("while", Token::While),
];
fn digits(s: &str, radix: u32) -> bool { s.chars().all(|c| c.is_ascii() && c.to_digit(radix).is_some()) }
fn integer(s: &str) -> bool { !s.is_empty() && (if s.starts_with('0') { digits(s, 8) } else { digits(s, 10) }) }
/// integer part, fraction, exponent
fn floating(s: &str) -> bool {
    let (m, e) = match s.find(['e', 'E']) { Some(k) => (&s[..k], Some(&s[k + 1..])), None => (s, None) };
    let mant = match m.find('.') {
        Some(k) => { let (a, b) = (&m[..k], &m[k + 1..]); digits(b, 10) && if a.is_empty() { !b.is_empty() } else { integer(a) } }
        None => e.is_some() && integer(m),
    };
    let exp = match e { None => true, Some(e) => { let e = e.strip_prefix(['+', '-']).unwrap_or(e); !e.is_empty() && digits(e, 10) } };
    mant && exp
}
fn string(s: &str) -> bool {
    if s.len() < 2 || !s.starts_with('"') || !s.ends_with('"') { return false; }
    let mut cs = s[1..s.len() - 1].chars();
    while let Some(c) = cs.next() { match c { '"' => return false, '\\' => if cs.next().is_none() { return false; }, _ => {} } }
    true
}
fn character(s: &str) -> bool {
    if s.len() < 3 || !s.starts_with('\'') || !s.ends_with('\'') { return false; }
    let b = &s[1..s.len() - 1];
    match b.strip_prefix('\\') {
        None => b.chars().count() == 1 && b != "'",
        Some(e) => (e.chars().count() == 1 && "'\"?\\nrtabfv".contains(e)) || (e.len() > 1 && e.starts_with('x') && digits(&e[1..], 16)) || ((1..=3).contains(&e.len()) && digits(e, 8)),
    }
}
/// the token a text spells
fn token(s: &str, names: &[String]) -> Option<Token> {
    if let Some((_, t)) = OPS.iter().find(|o| o.0 == s) { return Some(t.clone()); }
    if s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        if let Some((_, t)) = WORDS.iter().find(|o| o.0 == s) { return Some(t.clone()); }
        return Some(if names.iter().any(|n| n == s) { Token::TypedefName(s.to_string()) } else { Token::Identifier(s.to_string()) });
    }
    if integer(s) { return Some(if s.starts_with('0') { Token::OctalConstant(s.to_string()) } else { Token::DecimalConstant(s.to_string()) }); }
    for (a, b, r) in [("0b", "0B", 2), ("0x", "0X", 16)] {
        if s.len() > 2 && (s.starts_with(a) || s.starts_with(b)) && digits(&s[2..], r) { let t = format!("{a}{}", &s[2..]); return Some(if r == 2 { Token::BinaryConstant(t) } else { Token::HexConstant(t) }); }
    }
    if floating(s) { return Some(Token::FloatingConstant(s.replace('E', "e"))); }
    if string(s) { return Some(Token::StringLiteral(s[1..s.len() - 1].to_string())); }
    if character(s) { return Some(Token::CharConstant(s[1..s.len() - 1].to_string())); }
    None
}
/// some token starts with this
fn begins(s: &str) -> bool { ["", "0", "\"", "a\"", "'", "a'", "n'", "0'", "."].iter().any(|x| token(&format!("{s}{x}"), &[]).is_some()) }

/// a text in pieces; a piece that declares a type name says which
fn text(c: &mut Ctx) -> Vec<(String, Option<String>)> {
    let mut v: Vec<(String, Option<String>)> = vec![];
    let mut names: Vec<String> = vec![];
    let n = 1 + c.rng.below(14);
    let spread = c.rng.below(4);
    for _ in 0..n {
        let r = &mut c.rng;
        let s = match r.below(13) {
            0 | 1 => r.pick(OPS).0.to_string(),
            2 => { let w = r.pick(WORDS).0; if w == "typedef" { "typede".to_string() } else { w.to_string() } }
            3 => { let w = r.pick(WORDS).0; let k = 1 + r.below(w.len() as u64 + 1) as usize; let t = if k <= w.len() { w[..k].to_string() } else { format!("{w}{}", r.pick(&["s", "_", "1", "X"])) }; if t == "typedef" { "t".into() } else { t } }
            4 => if names.is_empty() || r.chance(1, 3) { r.pick(&["x", "T", "_", "_a", "Tx", "word9", "Z", "a1b2"]).to_string() } else { let s = r.pick(&names).clone(); if r.chance(1, 4) { format!("{s}x") } else if r.chance(1, 4) { s[..s.len() - 1].to_string() } else { s } },
            5 => { let k = 1 + r.below(5); (0..k).map(|_| *r.pick(&['0', '1', '7', '8', '9'])).collect() }
            6 => { let k = r.below(5); r.pick(&["0x", "0X", "0b", "0B", "0"]).to_string() + &(0..k).map(|_| *r.pick(&['0', '1', '7', 'a', 'F', '9', '.', 'e'])).collect::<String>() }
            7 => { let k = 1 + r.below(8); (0..k).map(|_| *r.pick(&['0', '1', '9', '.', 'e', 'E', '+', '-', '.'])).collect() }
            8 => { let k = r.below(6); format!("\"{}\"", (0..k).map(|_| *r.pick(&["a", " ", "\\n", "\\\"", "\\\\", "'", "\\x41", "é", "\\"])).collect::<String>()) }
            9 => { let k = r.below(3); format!("'{}{}", (0..=k).map(|_| *r.pick(&["a", "\\n", "\\'", "\\\\", "\\x4", "\\12", "7", "\\q", "\"", "é"])).collect::<String>(), if r.chance(1, 8) { "" } else { "'" }) }
            10 => r.pick(&["@", "#", "$", "é", "\\", "`", "\u{a0}", "..", "...", "....", "\"", "'"]).to_string(),
            11 if r.chance(1, 2) => {
                let x = r.pick(&["T", "U", "S", "ty", "Ab", "_", "pq", "W1"]).to_string();
                let d = match r.below(7) {
                    0 => format!("typedef int {x};"), 1 => format!("typedef unsigned long {x} ;"), 2 => format!("typedef struct {{ int a; long {x}{x}; }} {x};"), 3 => format!("typedef char *{x};"),
                    4 => format!("typedef enum {{ Qa, Qb }} {x};"), 5 => format!("typedef union {{ struct {{ int m; }} n; char k; }} {x};"), _ => format!("typedef int {x}[3];"),
                };
                if names.contains(&x) { "x".to_string() } else { names.push(x.clone()); v.push((" ".into(), None)); v.push((d, Some(x))); " ".into() }
            }
            _ => r.pick(&[" ", "\n", "\t", "  "]).to_string(),
        };
        v.push((s, None));
        if c.rng.below(4) < spread { v.push((" ".into(), None)); }
    }
    v
}
fn check(c: &mut Ctx, pieces: &[(String, Option<String>)]) {
    let src: String = pieces.iter().map(|p| p.0.as_str()).collect();
    // the names, and where their declarations end
    let mut declared: Vec<(usize, String)> = vec![];
    let mut at = 0;
    for (s, n) in pieces { at += s.len(); if let Some(n) = n { declared.push((at, n.clone())); } }
    c.case(|| src.clone());
    let mut want: Vec<Result<(usize, Token, usize), ()>> = vec![];
    let mut k = 0;
    loop {
        let rest = &src[k..];
        let skipped = rest.len() - rest.trim_start().len();
        k += skipped;
        let rest = &src[k..];
        if rest.is_empty() { break; }
        let names: Vec<String> = declared.iter().filter(|d| d.0 <= k).map(|d| d.1.clone()).collect();
        // the longest text that a token starts with
        let mut m = 0;
        for (i, ch) in rest.char_indices() { if begins(&rest[..i + ch.len_utf8()]) { m = i + ch.len_utf8(); } else { break; } }
        match token(&rest[..m], &names) { Some(t) => want.push(Ok((k, t, k + m))), None => { want.push(Err(())); break; } }
        k += m;
    }
    // a declaration inside a literal (behind a lone quote) is none
    for (e, _) in &declared { if want.iter().any(|w| matches!(w, Ok((a, _, b)) if *a < e - 1 && *b >= *e)) || (want.last() == Some(&Err(())) && k < *e) { return; } }
    let got = guard(|| { let mut v = vec![]; for x in Lexer::new(&src) { let e = x.is_err(); v.push(x.map_err(|e| format!("{e}"))); if e || v.len() > 4000 { break; } } v });
    match got {
        Err(e) => c.fail("panic", "no text makes the lexer panic", src, format!("{want:?}"), e),
        Ok(g) => {
            let g2: Vec<Result<(usize, Token, usize), ()>> = g.iter().cloned().map(|x| x.map_err(|_| ())).collect();
            for (i, w) in want.iter().enumerate() {
                let same = match (w, g2.get(i)) { (Ok((a, t, b)), Some(Ok((x, u, y)))) => a == x && t == u && (b == y || (*b == src.len() && !src.is_ascii())), (Err(()), Some(Err(()))) => true, _ => false };
                if !same {
                    let key = match w { Ok((_, t, _)) => format!("{t:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>(), Err(()) => "no token".into() };
                    c.fail(key, "the next token is the longest text that spells one", src.clone(), format!("token {i}: {w:?}"), format!("{:?}", g.get(i)));
                    return;
                }
            }
            if g2.len() != want.len() { c.fail("more", "nothing follows the last token", src, format!("{} tokens", want.len()), format!("{:?}", g.get(want.len()))); }
        }
    }
}
/// declarations of types that are none: no panic is all that is asked
fn odd(c: &mut Ctx) {
    let mut src = "typedef ".to_string();
    for _ in 0..1 + c.rng.below(9) { src += *c.rng.pick(&["{", "}", ";", "int", "T", "struct", "typedef", "(", ")", "*", "enum", ",", "3", "\"", "}}"]); src += " "; }
    c.case(|| src.clone());
    if let Err(e) = guard(|| { for x in Lexer::new(&src) { if x.is_err() { break; } } }) { c.fail("panic", "no text makes the lexer panic", src, "tokens or an error", e); }
}
fn programs(c: &mut Ctx) {
    let progs: &[(&str, i32)] = &[
        ("typedef int T; int main() { T x = 3; T y=4; return x*y; }", 12),
        ("typedef struct { int a; } S; typedef S *P; int main() { S s; P p = &s; p->a = 9; return s.a; }", 9),
        ("int main() { int a = 5; int b = 3; int c = a+++b; return c * 10 + a; }", 86),
        ("int main() { int a = 5; int b = 2; int c = a---b; return c * 10 + a; }", 34),
        ("int main() { int a = 6; a<<=2; a>>=1; a|=1; a^=3; a&=14; a%=9; return a; }", 14 % 9),
        ("int main() { double d = 1.5e+1; double e = .5; double f = 2.; int r; r = d * e * f; return r; }", 15),
        ("int main() { return 0x1F + 0b101 + 017 + 'a' - '\\n'; }", 31 + 5 + 15 + 97 - 10),
        ("int integer(int intx) { return intx; } int main() { int iff = 2; return integer(iff)<3&&1; }", 1),
    ];
    for (src, want) in progs {
        c.case(|| src.to_string());
        let got = exit_of(src, OPT);
        if got != Ok(*want) { c.fail("behaviour", "programs are read as C's tokens", src.to_string(), want.to_string(), format!("{got:?}")); return; }
    }
}
fn main() {
    run("C26", "every text of one or two and many of three characters, random texts of tokens, parts of tokens and other characters with type declarations between, and real programs; non-trivial = not empty", |c| {
        let alphabet: Vec<char> = (9..=127u8).map(|b| b as char).filter(|c| !c.is_control() || c.is_whitespace()).chain(['é']).collect();
        for a in &alphabet { check(c, &[(a.to_string(), None)]); for b in &alphabet { check(c, &[(format!("{a}{b}"), None)]); } if c.too_many() { return; } }
        let few = ['.', '0', '1', '9', 'e', 'E', 'x', 'b', '+', '-', '=', '<', '>', '&', '\'', '"', '\\', 'a', 'n', ' ', '_'];
        for a in few { for b in few { for d in few { check(c, &[(format!("{a}{b}{d}"), None)]); if c.n(0, 1) == 1 { for e in few { check(c, &[(format!("{a}{b}{d}{e}"), None)]); } } } } if c.too_many() { return; } }
        for (w, _) in WORDS { if *w != "typedef" { for x in ["", " ", "x", "9", "_", "("] { check(c, &[(format!("{w}{x}"), None)]); check(c, &[(format!("a {w}{x}"), None)]); } } }
        for _ in 0..c.n(30_000, 1_000_000) { let t = text(c); check(c, &t); if c.too_many() { return; } }
        for _ in 0..c.n(3000, 50_000) { odd(c); if c.too_many() { return; } }
        programs(c);
    });
}
