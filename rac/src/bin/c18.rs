//! C18: the escape decoder on random texts against an independent one; string literals and character constants of compiled programs.
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::front_end::interpret_string::interpret_string;

/// the characters a text denotes, as C has it
fn decode(s: &[char]) -> Option<Vec<u32>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != '\\' { out.push(s[i] as u32); i += 1; continue; }
        let c = *s.get(i + 1)?;
        i += 2;
        let simple = "'\"?\\abfnrtv".find(c);
        if let Some(k) = simple { out.push([39, 34, 63, 92, 7, 8, 12, 10, 13, 9, 11][k]); continue; }
        let mut n: u128 = 0;
        let mut k = 0;
        if c == 'x' {
            while let Some(d) = s.get(i).and_then(|c| c.to_digit(16)) { n = (n * 16 + d as u128).min(1 << 64); i += 1; k += 1; }
        } else {
            i -= 1;
            while k < 3 { match s.get(i) { Some(c) if ('0'..='7').contains(c) => { n = n * 8 + (*c as u128 - 48); i += 1; k += 1; } _ => break } }
        }
        if k == 0 || n > u32::MAX as u128 || char::from_u32(n as u32).is_none() { return None; }
        out.push(n as u32);
    }
    Some(out)
}
fn piece(r: &mut Rng, high: bool) -> String {
    match r.below(12) {
        0 | 1 => format!("\\{}", *r.pick(&['\'', '"', '?', '\\', 'a', 'b', 'f', 'n', 'r', 't', 'v'])),
        2 | 3 => { let top = if high && r.chance(1, 2) { 0o777 } else { 0o177 }; let n = r.below(top + 1); match r.below(3) { 0 => format!("\\{n:o}"), 1 => format!("\\{n:03o}"), _ => format!("\\{n:02o}") } }
        4 | 5 => { let n = if high { *r.pick(&[0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0xffffffff, 0x100000000]) } else { r.below(128) }; match r.below(3) { 0 => format!("\\x{n:x}"), 1 => format!("\\x{n:X}"), _ => format!("\\x{n:05x}") } }
        6 => (*r.pick(&["0", "7", "8", "9", "a", "f", "F", "g", "x", "n"])).to_string(),
        _ => ((32 + r.below(95)) as u8 as char).to_string(),
    }
}
fn one(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = r.below(8);
    let high = r.chance(1, 3);
    let mut s: String = (0..n).map(|_| piece(&mut r, high)).collect();
    if r.chance(1, 3) { // anything at all
        let n = r.below(9);
        s = (0..n).map(|_| *r.pick(&['\\', '\\', 'x', '0', '1', '7', '8', 'a', 'n', 'e', 'q', '\'', '"', 'G', '\u{e9}', '\u{661}', '\n', ' '])).collect();
    }
    c.case(|| format!("{s:?}"));
    let want = decode(&s.chars().collect::<Vec<_>>());
    match guard(|| interpret_string(&s)) {
        Err(e) => c.fail("crash", "every text is decoded or rejected", format!("{s:?}"), format!("{want:?}"), e),
        Ok(got) => {
            let got = got.ok().map(|t| t.chars().map(|c| c as u32).collect::<Vec<_>>());
            if got != want { c.fail("codes", "every escape denotes the code C gives it", format!("{s:?}"), format!("{want:?}"), format!("{got:?}")); }
        }
    }
}
/// literals of programs, all codes below 128
fn program(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let k = 1 + r.below(4) as usize;
    let mut src = String::from("int printf(const char *f, ...);\nint acc = 1;\nint sum(char *s, int n) { int i = 0; int t = 0; while (i < n) { t = t * 3 + s[i]; i++; } return t; }\nint main() {\n");
    let mut acc = 1i32;
    let mut bad = false;
    for j in 0..k {
        let n = r.below(6);
        let mut s: String = String::new();
        for _ in 0..n { let p = if r.chance(1, 40) { r.pick(&["\\q", "\\x", "\\8", "\\xg", "\\xffffffffff", "\\d800", "\\xd800"]).to_string() } else { piece(&mut r, false) }; s += &p; }
        // quotes end the literal; what runs on from an escape may make another
        let cs: Vec<char> = s.chars().collect();
        let mut t = String::new();
        let mut e = false;
        for x in cs { if x == '"' && !e { t.push('\''); } else { t.push(x); } e = x == '\\' && !e; }
        let d = match decode(&t.chars().collect::<Vec<_>>()) { Some(d) => d, None => { bad = true; vec![] } };
        if d.iter().any(|c| *c > 127) { return; }
        if r.chance(1, 3) { src += &format!("char s{j}[] = \"{t}\";\n"); } else { src += &format!("char *s{j} = \"{t}\";\n"); }
        src += &format!("acc = acc * 5 + sum(s{j}, {});\n", d.len() + 1);
        let n = d.iter().chain(&[0]).fold(0i32, |n, b| n.wrapping_mul(3).wrapping_add(*b as i32));
        acc = acc.wrapping_mul(5).wrapping_add(n);
    }
    for _ in 0..2 {
        let p = if r.chance(1, 40) { r.pick(&["\\q", "\\8", "\\x", "\\9", "\\xd800", "\\xfffffffff"]).to_string() } else { piece(&mut r, false) };
        let p = if p == "'" || p == "\\" { "\\".to_string() + &p } else { p };
        match decode(&p.chars().collect::<Vec<_>>()) { Some(d) => { if d[0] > 127 { return; } acc = acc.wrapping_mul(7).wrapping_add(d[0] as i32) } None => bad = true }
        src += &format!("acc = acc * 7 + '{p}';\n");
    }
    src += "return acc;\n}\n";
    c.case(|| src.clone());
    match guard(|| compile(&src, *[OPT, NOOPT].get(r.below(2) as usize).unwrap())) {
        Err(e) => c.fail("crash", "a literal is decoded or rejected", src, "no panic", e),
        Ok(Err(e)) if e.contains("panic") || !bad => c.fail("rejected", "a program with well-formed literals compiles, one without is rejected with an error", src, if bad { "an error" } else { "a program" }, e),
        Ok(Err(_)) => {}
        Ok(Ok(_)) if bad => c.fail("accepted", "a malformed escape is rejected", src, "an error", "it compiles"),
        Ok(Ok(m)) => match execute(m) { Ok(x) if x.exit == acc => {} x => c.fail("program", "a program reads the codes of its literals", src, acc.to_string(), match x { Ok(x) => x.exit.to_string(), Err(e) => format!("{e:?}") }) },
    }
}
/// every one-character escape as a constant and every short octal escape, with what follows it
fn fixed(c: &mut Ctx) {
    let mut all: Vec<String> = (0..=255u8).map(|b| format!("\\{}", b as char)).collect();
    for n in 0..0o1000 { for w in 1..=3 { for after in ["", "0", "7", "8", "a"] { all.push(format!("\\{n:0w$o}{after}")); } } }
    for n in 0..256 { for after in ["", "g", "\\n", "'"] { all.push(format!("\\x{n:x}{after}")); } }
    for s in all {
        c.case(|| format!("{s:?}"));
        let want = decode(&s.chars().collect::<Vec<_>>());
        let got = guard(|| interpret_string(&s)).map(|t| t.ok().map(|t| t.chars().map(|c| c as u32).collect::<Vec<_>>()));
        match got { Err(e) => c.fail("crash", "every text is decoded or rejected", format!("{s:?}"), format!("{want:?}"), e), Ok(got) => if got != want { c.fail("codes", "every escape denotes the code C gives it", format!("{s:?}"), format!("{want:?}"), format!("{got:?}")) } }
    }
}
/// codes from 128 up: a byte each in C
fn high(c: &mut Ctx) {
    let src = "int main() { char *s = \"\\xff\\1\"; if (s[1] == 1) { return 1; } return 0; }\n".to_string();
    c.case(|| src.clone());
    let got = compile(&src, OPT).and_then(|m| execute(m).map(|x| x.exit).map_err(|e| format!("{e:?}")));
    if got != Ok(1) { c.fail("high-codes", "an escape with a code above 127 is one byte", src, "1", format!("{got:?}")); }
}
fn main() {
    run("C18", "the decoder on random texts (escapes of every kind, all digit counts, malformed ones, characters beyond ASCII), on all one-character escapes and all octal and two-digit hexadecimal ones with different followers, against an independent decoder; random string literals (pointers and arrays) and character constants in compiled programs", |c| {
        fixed(c);
        high(c);
        for _ in 0..c.n(60_000, 2_000_000) { one(c); if c.too_many() { return; } }
        for _ in 0..c.n(3_000, 50_000) { program(c); if c.too_many() { return; } }
    });
}
