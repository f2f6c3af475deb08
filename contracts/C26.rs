// dividing the program's text into tokens
//@include lib_std.inc
pub fn vpanic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }
// the characters still to come with their positions; std's Peekable<CharIndices> is opaque
#[verifier::external_body]
pub struct CharIndices<'a> { c: &'a str }
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Peekable<C> { c: C }
impl<'a> Peekable<CharIndices<'a>> {
    pub uninterp spec fn rest(&self) -> Seq<(usize, char)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures match r { None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(), Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        ensures final(self).rest() == old(self).rest(), match r { None => old(self).rest().len() == 0, Some(c) => old(self).rest().len() > 0 && *c == old(self).rest()[0] },
    { unimplemented!() }
}
/// the characters of a text, with positions below the text's length
#[verifier::external_body]
pub fn char_indices_of<'a>(s: &'a str) -> (r: Peekable<CharIndices<'a>>)
    ensures letters(r.rest()) == s@, positioned(r.rest()),
{ unimplemented!() }
pub open spec fn letters(r: Seq<(usize, char)>) -> Seq<char> { r.map_values(|p: (usize, char)| p.1) }
pub open spec fn positioned(r: Seq<(usize, char)>) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i].0 < usize::MAX }
//@type src/front_end/lexer.rs Token clone eq
//@type src/front_end/lexer.rs LexError clone
//@type src/front_end/lexer.rs State
//@type src/front_end/lexer.rs Fsm
pub type Spanned<Tok, Loc, Error> = Result<(Loc, Tok, Loc), Error>;
pub type TypedefName = String;
//@type src/front_end/lexer.rs Lexer

/// the value of a digit, 36 for anything else
pub open spec fn digit(c: char) -> nat {
    let n = c as nat;
    if 48 <= n <= 57 { (n - 48) as nat } else if 97 <= n <= 122 { (n - 87) as nat } else if 65 <= n <= 90 { (n - 55) as nat } else { 36 }
}
pub open spec fn letter(c: char) -> bool { 65 <= c as nat <= 90 || 97 <= c as nat <= 122 }
/// what takes no part in any token
pub uninterp spec fn space(c: char) -> bool;
pub broadcast axiom fn ascii_space(c: char) requires (c as nat) < 128 ensures #[trigger] space(c) == (c as nat == 32 || 9 <= c as nat <= 13);
/// `is_whitespace()`
#[verifier::external_body]
pub fn is_space(c: char) -> (r: bool) ensures r == space(c) { c.is_whitespace() }
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool) ensures r == (digit(*c) < 16);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == (digit(*c) < 10);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == letter(*c);
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (digit(c) < radix);
/// a string literal pattern compares texts
pub broadcast axiom fn same_text(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
#[verifier::external_body]
pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
pub fn text_of(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
/// what `{x}` of `format!` adds
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn show<T: Shown>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.shown(), old(s)@.len() == 0 ==> final(s)@ == x.shown(), x.shown().len() == 1 ==> final(s)@ == old(s)@.push(x.shown()[0]) { unimplemented!() }
#[verifier::external_body]
pub fn vformat() -> String { unimplemented!() }

// ---- C's tokens (the words, operators and constants of this compiler's C) ----
pub open spec fn idc(c: char) -> bool { letter(c) || digit(c) < 10 || c == '_' }
pub open spec fn all_digits(w: Seq<char>, from: int, radix: nat) -> bool { forall|i: int| from <= i < w.len() ==> #[trigger] digit(w[i]) < radix }
pub open spec fn ident(w: Seq<char>) -> bool { w.len() > 0 && (letter(w[0]) || w[0] == '_') && forall|i: int| 0 <= i < w.len() ==> #[trigger] idc(w[i]) }
pub open spec fn decimal(w: Seq<char>) -> bool { w.len() > 0 && w[0] != '0' && all_digits(w, 0, 10) }
pub open spec fn octal(w: Seq<char>) -> bool { w.len() > 0 && w[0] == '0' && all_digits(w, 0, 8) }
/// 0b or 0x and digits, maybe none yet
pub open spec fn prefixed(w: Seq<char>, a: char, b: char, radix: nat) -> bool { w.len() >= 2 && w[0] == '0' && (w[1] == a || w[1] == b) && all_digits(w, 2, radix) }
pub open spec fn mantissa(w: Seq<char>) -> bool
    decreases w.len(),
{
    w.len() >= 2 && (if w.last() == '.' { decimal(w.drop_last()) || octal(w.drop_last()) } else { digit(w.last()) < 10 && (mantissa(w.drop_last()) || (w.len() == 2 && w[0] == '.')) })
}
/// up to the e, the sign behind it, the digits
pub open spec fn exponent(w: Seq<char>) -> bool { w.len() >= 2 && (w.last() == 'e' || w.last() == 'E') && (mantissa(w.drop_last()) || decimal(w.drop_last()) || octal(w.drop_last())) }
pub open spec fn exponent_sign(w: Seq<char>) -> bool { w.len() >= 2 && (w.last() == '+' || w.last() == '-') && exponent(w.drop_last()) }
pub open spec fn scaled(w: Seq<char>) -> bool
    decreases w.len(),
{ w.len() >= 2 && digit(w.last()) < 10 && (exponent(w.drop_last()) || exponent_sign(w.drop_last()) || scaled(w.drop_last())) }
pub open spec fn floating(w: Seq<char>) -> bool { mantissa(w) || scaled(w) }
/// a quote and any characters up to here, the last one no lone backslash
pub open spec fn string_open(w: Seq<char>) -> bool
    decreases w.len(),
{ w.len() > 0 && (if w.len() == 1 { w[0] == '"' } else { (string_open(w.drop_last()) && w.last() != '"' && w.last() != '\\') || string_esc(w.drop_last()) }) }
pub open spec fn string_esc(w: Seq<char>) -> bool
    decreases w.len(),
{ w.len() >= 2 && w.last() == '\\' && string_open(w.drop_last()) }
pub open spec fn string_lit(w: Seq<char>) -> bool { w.len() >= 2 && w.last() == '"' && string_open(w.drop_last()) }
pub open spec fn simple_escape(c: char) -> bool { c == '\'' || c == '"' || c == '?' || c == '\\' || c == 'n' || c == 'r' || c == 't' || c == 'a' || c == 'b' || c == 'f' || c == 'v' }
/// the character between the quotes of a constant, from the opening quote on
pub open spec fn char_plain(w: Seq<char>) -> bool { w.len() == 2 && w[0] == '\'' && w[1] != '\'' && w[1] != '\\' }
pub open spec fn char_esc(w: Seq<char>) -> bool { w.len() >= 2 && w[0] == '\'' && w[1] == '\\' }
pub open spec fn char_simple(w: Seq<char>) -> bool { char_esc(w) && w.len() == 3 && simple_escape(w[2]) }
pub open spec fn char_hex(w: Seq<char>) -> bool { char_esc(w) && w.len() >= 3 && w[2] == 'x' && all_digits(w, 3, 16) }
pub open spec fn char_octal(w: Seq<char>) -> bool { char_esc(w) && 3 <= w.len() <= 5 && all_digits(w, 2, 8) }
pub open spec fn char_body(w: Seq<char>) -> bool { char_plain(w) || char_simple(w) || (char_hex(w) && w.len() >= 4) || char_octal(w) }
pub open spec fn char_lit(w: Seq<char>) -> bool { w.len() >= 3 && w.last() == '\'' && char_body(w.drop_last()) }
pub open spec fn char_open(w: Seq<char>) -> bool { w.len() >= 1 && w[0] == '\'' && (w.len() == 1 || (char_esc(w) && w.len() == 2) || char_plain(w) || char_simple(w) || char_hex(w) || char_octal(w)) }
/// the e of an exponent is written small
pub open spec fn small_e(c: char) -> char { if c == 'E' { 'e' } else { c } }
pub open spec fn float_text(w: Seq<char>) -> Seq<char> { w.map_values(|c: char| small_e(c)) }
pub open spec fn keyword(w: Seq<char>) -> Option<Token> {
    if w == "auto"@ { Some(Token::Auto) }
    else if w == "break"@ { Some(Token::Break) }
    else if w == "case"@ { Some(Token::Case) }
    else if w == "char"@ { Some(Token::Char) }
    else if w == "const"@ { Some(Token::Const) }
    else if w == "continue"@ { Some(Token::Continue) }
    else if w == "default"@ { Some(Token::Default) }
    else if w == "do"@ { Some(Token::Do) }
    else if w == "double"@ { Some(Token::Double) }
    else if w == "else"@ { Some(Token::Else) }
    else if w == "enum"@ { Some(Token::Enum) }
    else if w == "extern"@ { Some(Token::Extern) }
    else if w == "float"@ { Some(Token::Float) }
    else if w == "for"@ { Some(Token::For) }
    else if w == "goto"@ { Some(Token::Goto) }
    else if w == "if"@ { Some(Token::If) }
    else if w == "inline"@ { Some(Token::Inline) }
    else if w == "int"@ { Some(Token::Int) }
    else if w == "long"@ { Some(Token::Long) }
    else if w == "register"@ { Some(Token::Register) }
    else if w == "return"@ { Some(Token::Return) }
    else if w == "short"@ { Some(Token::Short) }
    else if w == "signed"@ { Some(Token::Signed) }
    else if w == "sizeof"@ { Some(Token::Sizeof) }
    else if w == "static"@ { Some(Token::Static) }
    else if w == "struct"@ { Some(Token::Struct) }
    else if w == "switch"@ { Some(Token::Switch) }
    else if w == "typedef"@ { Some(Token::Typedef) }
    else if w == "union"@ { Some(Token::Union) }
    else if w == "unsigned"@ { Some(Token::Unsigned) }
    else if w == "void"@ { Some(Token::Void) }
    else if w == "volatile"@ { Some(Token::Volatile) }
    else if w == "while"@ { Some(Token::While) }
    else { None }
}
pub open spec fn op(w: Seq<char>) -> Option<Token> {
    if w.len() == 1 && w[0] == '!' { Some(Token::Bang) }
    else if w.len() == 1 && w[0] == '&' { Some(Token::Ampersand) }
    else if w.len() == 1 && w[0] == '%' { Some(Token::Percent) }
    else if w.len() == 1 && w[0] == '*' { Some(Token::Asterisk) }
    else if w.len() == 1 && w[0] == '^' { Some(Token::Caret) }
    else if w.len() == 1 && w[0] == '+' { Some(Token::Plus) }
    else if w.len() == 1 && w[0] == '-' { Some(Token::Minus) }
    else if w.len() == 1 && w[0] == '=' { Some(Token::Eq) }
    else if w.len() == 1 && w[0] == '~' { Some(Token::Tilde) }
    else if w.len() == 1 && w[0] == '|' { Some(Token::Bar) }
    else if w.len() == 1 && w[0] == '<' { Some(Token::LessThan) }
    else if w.len() == 1 && w[0] == '>' { Some(Token::GreaterThan) }
    else if w.len() == 1 && w[0] == '/' { Some(Token::Slash) }
    else if w.len() == 1 && w[0] == '?' { Some(Token::Question) }
    else if w.len() == 1 && w[0] == '(' { Some(Token::LeftParen) }
    else if w.len() == 1 && w[0] == ')' { Some(Token::RightParen) }
    else if w.len() == 1 && w[0] == '[' { Some(Token::LeftSquare) }
    else if w.len() == 1 && w[0] == ']' { Some(Token::RightSquare) }
    else if w.len() == 1 && w[0] == '{' { Some(Token::LeftCurly) }
    else if w.len() == 1 && w[0] == '}' { Some(Token::RightCurly) }
    else if w.len() == 1 && w[0] == ',' { Some(Token::Comma) }
    else if w.len() == 1 && w[0] == ';' { Some(Token::Semicolon) }
    else if w.len() == 1 && w[0] == ':' { Some(Token::Colon) }
    else if w.len() == 1 && w[0] == '.' { Some(Token::Dot) }
    else if w.len() == 2 && w[0] == '!' && w[1] == '=' { Some(Token::BangEq) }
    else if w.len() == 2 && w[0] == '&' && w[1] == '=' { Some(Token::AmpersandEq) }
    else if w.len() == 2 && w[0] == '&' && w[1] == '&' { Some(Token::DoubleAmpersand) }
    else if w.len() == 2 && w[0] == '%' && w[1] == '=' { Some(Token::PercentEq) }
    else if w.len() == 2 && w[0] == '*' && w[1] == '=' { Some(Token::AsteriskEq) }
    else if w.len() == 2 && w[0] == '^' && w[1] == '=' { Some(Token::CaretEq) }
    else if w.len() == 2 && w[0] == '+' && w[1] == '=' { Some(Token::PlusEq) }
    else if w.len() == 2 && w[0] == '+' && w[1] == '+' { Some(Token::DoublePlus) }
    else if w.len() == 2 && w[0] == '-' && w[1] == '=' { Some(Token::MinusEq) }
    else if w.len() == 2 && w[0] == '-' && w[1] == '-' { Some(Token::DoubleMinus) }
    else if w.len() == 2 && w[0] == '-' && w[1] == '>' { Some(Token::Arrow) }
    else if w.len() == 2 && w[0] == '=' && w[1] == '=' { Some(Token::DoubleEq) }
    else if w.len() == 2 && w[0] == '|' && w[1] == '=' { Some(Token::BarEq) }
    else if w.len() == 2 && w[0] == '|' && w[1] == '|' { Some(Token::DoubleBar) }
    else if w.len() == 2 && w[0] == '<' && w[1] == '=' { Some(Token::LessThanEq) }
    else if w.len() == 2 && w[0] == '<' && w[1] == '<' { Some(Token::LeftShift) }
    else if w.len() == 2 && w[0] == '>' && w[1] == '=' { Some(Token::GreaterThanEq) }
    else if w.len() == 2 && w[0] == '>' && w[1] == '>' { Some(Token::RightShift) }
    else if w.len() == 2 && w[0] == '/' && w[1] == '=' { Some(Token::SlashEq) }
    else if w.len() == 3 && w[0] == '<' && w[1] == '<' && w[2] == '=' { Some(Token::LeftShiftEq) }
    else if w.len() == 3 && w[0] == '>' && w[1] == '>' && w[2] == '=' { Some(Token::RightShiftEq) }
    else if w.len() == 3 && w[0] == '.' && w[1] == '.' && w[2] == '.' { Some(Token::Ellipsis) }
    else { None }
}
/// t is the token that a text spells, where `names` are the words that name types
pub open spec fn spells(w: Seq<char>, t: Token, names: Seq<String>) -> bool {
    match t {
        Token::Identifier(s) => ident(w) && keyword(w) is None && !is_name(w, names) && s@ == w,
        Token::TypedefName(s) => ident(w) && keyword(w) is None && is_name(w, names) && s@ == w,
        Token::DecimalConstant(s) => decimal(w) && s@ == w,
        Token::OctalConstant(s) => octal(w) && s@ == w,
        Token::BinaryConstant(s) => prefixed(w, 'b', 'B', 2) && w.len() > 2 && s@ == seq!['0', 'b'] + w.skip(2),
        Token::HexConstant(s) => prefixed(w, 'x', 'X', 16) && w.len() > 2 && s@ == seq!['0', 'x'] + w.skip(2),
        Token::FloatingConstant(s) => floating(w) && s@ == float_text(w),
        Token::StringLiteral(s) => string_lit(w) && s@ == w.subrange(1, w.len() - 1),
        Token::CharConstant(s) => char_lit(w) && s@ == w.subrange(1, w.len() - 1),
        _ => op(w) == Some(t) || (ident(w) && keyword(w) == Some(t)),
    }
}
pub open spec fn is_name(w: Seq<char>, names: Seq<String>) -> bool { exists|k: int| 0 <= k < names.len() && #[trigger] names[k]@ == w }
/// a text that a token starts with
pub open spec fn part(w: Seq<char>) -> bool {
    w.len() == 0 || op(w) is Some || (w.len() == 2 && w[0] == '.' && w[1] == '.') || ident(w) || decimal(w) || octal(w) || prefixed(w, 'b', 'B', 2) || prefixed(w, 'x', 'X', 16)
    || mantissa(w) || exponent(w) || exponent_sign(w) || scaled(w) || string_open(w) || string_esc(w) || string_lit(w) || char_open(w) || char_lit(w)
}
/// a text that is a token
pub open spec fn whole(w: Seq<char>) -> bool {
    op(w) is Some || ident(w) || decimal(w) || octal(w) || (prefixed(w, 'b', 'B', 2) && w.len() > 2) || (prefixed(w, 'x', 'X', 16) && w.len() > 2) || floating(w) || string_lit(w) || char_lit(w)
}

/// what the automaton has read when it is in a state, and the text it has gathered
pub open spec fn at(f: Fsm, w: Seq<char>, names: Seq<String>) -> bool {
    match f.state {
        State::Start => w.len() == 0 && f.token is None,
        State::Bang => w.len() == 1 && w[0] == '!' && f.token == Some(Token::Bang),
        State::Ampersand => w.len() == 1 && w[0] == '&' && f.token == Some(Token::Ampersand),
        State::Percent => w.len() == 1 && w[0] == '%' && f.token == Some(Token::Percent),
        State::Asterisk => w.len() == 1 && w[0] == '*' && f.token == Some(Token::Asterisk),
        State::Caret => w.len() == 1 && w[0] == '^' && f.token == Some(Token::Caret),
        State::Plus => w.len() == 1 && w[0] == '+' && f.token == Some(Token::Plus),
        State::Minus => w.len() == 1 && w[0] == '-' && f.token == Some(Token::Minus),
        State::Eq => w.len() == 1 && w[0] == '=' && f.token == Some(Token::Eq),
        State::Tilde => w.len() == 1 && w[0] == '~' && f.token == Some(Token::Tilde),
        State::Bar => w.len() == 1 && w[0] == '|' && f.token == Some(Token::Bar),
        State::LessThan => w.len() == 1 && w[0] == '<' && f.token == Some(Token::LessThan),
        State::GreaterThan => w.len() == 1 && w[0] == '>' && f.token == Some(Token::GreaterThan),
        State::Slash => w.len() == 1 && w[0] == '/' && f.token == Some(Token::Slash),
        State::Question => w.len() == 1 && w[0] == '?' && f.token == Some(Token::Question),
        State::LeftParen => w.len() == 1 && w[0] == '(' && f.token == Some(Token::LeftParen),
        State::RightParen => w.len() == 1 && w[0] == ')' && f.token == Some(Token::RightParen),
        State::LeftSquare => w.len() == 1 && w[0] == '[' && f.token == Some(Token::LeftSquare),
        State::RightSquare => w.len() == 1 && w[0] == ']' && f.token == Some(Token::RightSquare),
        State::LeftCurly => w.len() == 1 && w[0] == '{' && f.token == Some(Token::LeftCurly),
        State::RightCurly => w.len() == 1 && w[0] == '}' && f.token == Some(Token::RightCurly),
        State::Comma => w.len() == 1 && w[0] == ',' && f.token == Some(Token::Comma),
        State::Semicolon => w.len() == 1 && w[0] == ';' && f.token == Some(Token::Semicolon),
        State::Colon => w.len() == 1 && w[0] == ':' && f.token == Some(Token::Colon),
        State::Dot1 => w.len() == 1 && w[0] == '.' && f.token == Some(Token::Dot),
        State::BangEq => w.len() == 2 && w[0] == '!' && w[1] == '=' && f.token == Some(Token::BangEq),
        State::AmpersandEq => w.len() == 2 && w[0] == '&' && w[1] == '=' && f.token == Some(Token::AmpersandEq),
        State::DoubleAmpersand => w.len() == 2 && w[0] == '&' && w[1] == '&' && f.token == Some(Token::DoubleAmpersand),
        State::PercentEq => w.len() == 2 && w[0] == '%' && w[1] == '=' && f.token == Some(Token::PercentEq),
        State::AsteriskEq => w.len() == 2 && w[0] == '*' && w[1] == '=' && f.token == Some(Token::AsteriskEq),
        State::CaretEq => w.len() == 2 && w[0] == '^' && w[1] == '=' && f.token == Some(Token::CaretEq),
        State::PlusEq => w.len() == 2 && w[0] == '+' && w[1] == '=' && f.token == Some(Token::PlusEq),
        State::DoublePlus => w.len() == 2 && w[0] == '+' && w[1] == '+' && f.token == Some(Token::DoublePlus),
        State::MinusEq => w.len() == 2 && w[0] == '-' && w[1] == '=' && f.token == Some(Token::MinusEq),
        State::DoubleMinus => w.len() == 2 && w[0] == '-' && w[1] == '-' && f.token == Some(Token::DoubleMinus),
        State::Arrow => w.len() == 2 && w[0] == '-' && w[1] == '>' && f.token == Some(Token::Arrow),
        State::DoubleEq => w.len() == 2 && w[0] == '=' && w[1] == '=' && f.token == Some(Token::DoubleEq),
        State::BarEq => w.len() == 2 && w[0] == '|' && w[1] == '=' && f.token == Some(Token::BarEq),
        State::DoubleBar => w.len() == 2 && w[0] == '|' && w[1] == '|' && f.token == Some(Token::DoubleBar),
        State::LessThanEq => w.len() == 2 && w[0] == '<' && w[1] == '=' && f.token == Some(Token::LessThanEq),
        State::LeftShift => w.len() == 2 && w[0] == '<' && w[1] == '<' && f.token == Some(Token::LeftShift),
        State::GreaterThanEq => w.len() == 2 && w[0] == '>' && w[1] == '=' && f.token == Some(Token::GreaterThanEq),
        State::RightShift => w.len() == 2 && w[0] == '>' && w[1] == '>' && f.token == Some(Token::RightShift),
        State::SlashEq => w.len() == 2 && w[0] == '/' && w[1] == '=' && f.token == Some(Token::SlashEq),
        State::LeftShiftEq => w.len() == 3 && w[0] == '<' && w[1] == '<' && w[2] == '=' && f.token == Some(Token::LeftShiftEq),
        State::RightShiftEq => w.len() == 3 && w[0] == '>' && w[1] == '>' && w[2] == '=' && f.token == Some(Token::RightShiftEq),
        State::Dot3 => w.len() == 3 && w[0] == '.' && w[1] == '.' && w[2] == '.' && f.token == Some(Token::Ellipsis),
        State::Dot2 => w.len() == 2 && w[0] == '.' && w[1] == '.' && f.token is None,
        State::Identifier => ident(w) && keyword(w) is None && !is_name(w, names) && (match f.token { Some(Token::Identifier(s)) => s@ == w, _ => false }),
        State::Keyword(k) => ident(w) && k@ == w && keyword(w) is Some && f.token == keyword(w),
        State::TypedefName => ident(w) && keyword(w) is None && is_name(w, names) && (match f.token { Some(Token::TypedefName(s)) => s@ == w, _ => false }),
        State::Decimal => decimal(w) && (match f.token { Some(Token::DecimalConstant(s)) => s@ == w, _ => false }),
        State::Float1 => mantissa(w) && (match f.token { Some(Token::FloatingConstant(s)) => s@ == float_text(w), _ => false }),
        State::Float2 => exponent(w) && (match f.token { Some(Token::FloatingConstant(s)) => s@ == float_text(w), _ => false }),
        State::Float3 => exponent_sign(w) && (match f.token { Some(Token::FloatingConstant(s)) => s@ == float_text(w), _ => false }),
        State::Float4 => scaled(w) && (match f.token { Some(Token::FloatingConstant(s)) => s@ == float_text(w), _ => false }),
        State::Oct1 => w.len() == 1 && octal(w) && (match f.token { Some(Token::OctalConstant(s)) => s@ == w, _ => false }),
        State::Oct2 => w.len() > 1 && octal(w) && (match f.token { Some(Token::OctalConstant(s)) => s@ == w, _ => false }),
        State::Bin1 => w.len() == 2 && prefixed(w, 'b', 'B', 2) && (match f.token { Some(Token::BinaryConstant(s)) => s@ == seq!['0', 'b'] + w.skip(2), _ => false }),
        State::Bin2 => w.len() > 2 && prefixed(w, 'b', 'B', 2) && (match f.token { Some(Token::BinaryConstant(s)) => s@ == seq!['0', 'b'] + w.skip(2), _ => false }),
        State::Hex1 => w.len() == 2 && prefixed(w, 'x', 'X', 16) && (match f.token { Some(Token::HexConstant(s)) => s@ == seq!['0', 'x'] + w.skip(2), _ => false }),
        State::Hex2 => w.len() > 2 && prefixed(w, 'x', 'X', 16) && (match f.token { Some(Token::HexConstant(s)) => s@ == seq!['0', 'x'] + w.skip(2), _ => false }),
        State::String1 => w.len() == 1 && string_open(w) && f.token is None,
        State::String2 => string_esc(w) && (match f.token { Some(Token::StringLiteral(s)) => s@ == w.skip(1), _ => false }),
        State::String3 => w.len() > 1 && string_open(w) && (match f.token { Some(Token::StringLiteral(s)) => s@ == w.skip(1), _ => false }),
        State::String4 => string_lit(w) && (match f.token { Some(Token::StringLiteral(s)) => s@ == w.subrange(1, w.len() - 1), _ => false }),
        State::Char1 => w.len() == 1 && w[0] == '\'' && f.token is None,
        State::Char2 => w.len() == 2 && char_esc(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char3 => char_simple(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char4 => w.len() == 3 && char_hex(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char5 => w.len() > 3 && char_hex(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char6 => w.len() == 3 && char_octal(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char7 => w.len() == 4 && char_octal(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char8 => w.len() == 5 && char_octal(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char9 => char_plain(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.skip(1), _ => false }),
        State::Char10 => char_lit(w) && (match f.token { Some(Token::CharConstant(s)) => s@ == w.subrange(1, w.len() - 1), _ => false }),
    }
}
proof fn lemma_push(w: Seq<char>, c: char)
    ensures w.push(c).drop_last() == w, w.push(c).last() == c, w.push(c).len() == w.len() + 1,
        w.len() > 0 ==> w.push(c)[0] == w[0],
        float_text(w.push(c)) == float_text(w).push(small_e(c)),
        w.len() >= 1 ==> w.push(c).skip(1) == w.skip(1).push(c) && w.push(c).subrange(1, w.len() as int) == w.skip(1),
        w.len() >= 2 ==> (seq!['0', 'b'] + w.skip(2)).push(c) == seq!['0', 'b'] + w.push(c).skip(2) && (seq!['0', 'x'] + w.skip(2)).push(c) == seq!['0', 'x'] + w.push(c).skip(2),
{
    assert(w.push(c).drop_last() =~= w);
    assert(float_text(w.push(c)) =~= float_text(w).push(small_e(c)));
    if w.len() >= 1 { assert(w.push(c).skip(1) =~= w.skip(1).push(c)); assert(w.push(c).subrange(1, w.len() as int) =~= w.skip(1)); }
    if w.len() >= 2 { assert((seq!['0', 'b'] + w.skip(2)).push(c) =~= seq!['0', 'b'] + w.push(c).skip(2)); assert((seq!['0', 'x'] + w.skip(2)).push(c) =~= seq!['0', 'x'] + w.push(c).skip(2)); }
}
/// floating constants start with a digit or a point
proof fn lemma_number_start(w: Seq<char>)
    ensures mantissa(w) || exponent(w) || exponent_sign(w) || scaled(w) ==> w.len() >= 2 && (digit(w[0]) < 10 || w[0] == '.'),
        string_open(w) || string_esc(w) || string_lit(w) ==> w.len() > 0 && w[0] == '"',
    decreases w.len(),
{
    if w.len() > 0 { lemma_number_start(w.drop_last()); if w.len() > 1 { lemma_number_start(w.drop_last().drop_last()); } }
}
/// what a token starts with, a shorter text starts too
pub proof fn lemma_shorter(w: Seq<char>)
    requires part(w), w.len() > 0,
    ensures part(w.drop_last()),
{
    let d = w.drop_last();
    if d.len() > 0 { assert(d[0] == w[0]); }
    if ident(w) && d.len() > 0 { assert(ident(d)); }
    if decimal(w) && d.len() > 0 { assert(decimal(d)); }
    if octal(w) && d.len() > 0 { assert(octal(d)); }
    if prefixed(w, 'b', 'B', 2) { if d.len() == 1 { assert(octal(d)); } else { assert(prefixed(d, 'b', 'B', 2)); } }
    if prefixed(w, 'x', 'X', 16) { if d.len() == 1 { assert(octal(d)); } else { assert(prefixed(d, 'x', 'X', 16)); } }
    if scaled(w) || exponent(w) || exponent_sign(w) || mantissa(w) { assert(part(d)); }
    if char_open(w) { assert(part(d)); }
    if char_lit(w) { assert(char_open(d)); }
    if string_lit(w) || string_open(w) || string_esc(w) { assert(part(d)); }
}
/// every token is one of the texts of `whole`, and each of those is some token
pub proof fn lemma_token_whole(w: Seq<char>, t: Token, names: Seq<String>)
    requires spells(w, t, names),
    ensures whole(w), part(w),
{
    if char_lit(w) { assert(part(w)); }
}
/// a text that no token starts with does not start one however it goes on
pub proof fn lemma_longest(w: Seq<char>, n: int, t: Token, names: Seq<String>)
    requires 0 <= n <= w.len(), !part(w.take(n)),
    ensures !spells(w, t, names),
    decreases w.len() - n,
{
    if n == w.len() { assert(w.take(n) =~= w); if spells(w, t, names) { lemma_token_whole(w, t, names); } }
    else {
        if part(w.take(n + 1)) { lemma_shorter(w.take(n + 1)); assert(w.take(n + 1).drop_last() =~= w.take(n)); }
        lemma_longest(w, n + 1, t, names);
    }
}
/// one more character
proof fn lemma_next(w: Seq<char>, c: char)
    ensures
        ident(w.push(c)) == (if w.len() == 0 { letter(c) || c == '_' } else { ident(w) && idc(c) }),
        decimal(w.push(c)) == (if w.len() == 0 { c != '0' && digit(c) < 10 } else { decimal(w) && digit(c) < 10 }),
        octal(w.push(c)) == (if w.len() == 0 { c == '0' } else { octal(w) && digit(c) < 8 }),
        forall|a: char, b: char, r: nat| #[trigger] prefixed(w.push(c), a, b, r) == ((w.len() == 1 && w[0] == '0' && (c == a || c == b)) || (prefixed(w, a, b, r) && digit(c) < r)),
        mantissa(w.push(c)) == (if c == '.' { decimal(w) || octal(w) } else { digit(c) < 10 && (mantissa(w) || (w.len() == 1 && w[0] == '.')) }),
        exponent(w.push(c)) == ((c == 'e' || c == 'E') && (mantissa(w) || decimal(w) || octal(w))),
        exponent_sign(w.push(c)) == ((c == '+' || c == '-') && exponent(w)),
        scaled(w.push(c)) == (digit(c) < 10 && (exponent(w) || exponent_sign(w) || scaled(w))),
        string_open(w.push(c)) == (if w.len() == 0 { c == '"' } else { (string_open(w) && c != '"' && c != '\\') || string_esc(w) }),
        string_esc(w.push(c)) == (c == '\\' && string_open(w)),
        string_lit(w.push(c)) == (c == '"' && string_open(w)),
        char_plain(w.push(c)) == (w.len() == 1 && w[0] == '\'' && c != '\'' && c != '\\'),
        char_esc(w.push(c)) == (char_esc(w) || (w.len() == 1 && w[0] == '\'' && c == '\\')),
        char_simple(w.push(c)) == (char_esc(w) && w.len() == 2 && simple_escape(c)),
        char_hex(w.push(c)) == (char_esc(w) && ((w.len() == 2 && c == 'x') || (char_hex(w) && digit(c) < 16))),
        char_octal(w.push(c)) == (char_esc(w) && digit(c) < 8 && (w.len() == 2 || (char_octal(w) && w.len() < 5))),
        char_lit(w.push(c)) == (c == '\'' && char_body(w)),
        w.len() >= 1 && string_open(w) ==> w[0] == '"',
{
    lemma_push(w, c);
    lemma_number_start(w);
    let v = w.push(c);
    assert(forall|i: int| 0 <= i < w.len() ==> v[i] == w[i]);
    if w.len() > 0 {
        if ident(v) { assert forall|i: int| 0 <= i < w.len() implies #[trigger] idc(w[i]) by { assert(idc(v[i])); } }
        assert(all_digits(v, 0, 10) ==> all_digits(w, 0, 10) && digit(c) < 10) by { if all_digits(v, 0, 10) { assert forall|i: int| 0 <= i < w.len() implies #[trigger] digit(w[i]) < 10 by { assert(digit(v[i]) < 10); } } }
        assert(all_digits(v, 0, 8) ==> all_digits(w, 0, 8) && digit(c) < 8) by { if all_digits(v, 0, 8) { assert forall|i: int| 0 <= i < w.len() implies #[trigger] digit(w[i]) < 8 by { assert(digit(v[i]) < 8); } } }
    }
    assert forall|from: int, r: nat| 0 <= from <= w.len() implies #[trigger] all_digits(v, from, r) == (all_digits(w, from, r) && digit(c) < r) by {
        if all_digits(v, from, r) { assert(digit(v[w.len() as int]) < r); assert forall|i: int| from <= i < w.len() implies #[trigger] digit(w[i]) < r by { assert(digit(v[i]) < r); } }
    }
}
/// the first character of each kind of text
proof fn lemma_starts(w: Seq<char>)
    ensures
        ident(w) ==> w.len() > 0 && (letter(w[0]) || w[0] == '_'),
        decimal(w) ==> w.len() > 0 && w[0] != '0' && digit(w[0]) < 10,
        octal(w) ==> w.len() > 0 && w[0] == '0',
        forall|a: char, b: char, r: nat| #[trigger] prefixed(w, a, b, r) ==> w.len() >= 2 && w[0] == '0',
        char_hex(w) || char_octal(w) || char_lit(w) || char_esc(w) ==> w.len() >= 2 && w[0] == '\'',
        mantissa(w) || exponent(w) || exponent_sign(w) || scaled(w) ==> w.len() >= 2,
        string_esc(w) || string_lit(w) ==> w.len() >= 2, string_open(w) ==> w.len() >= 1,
        w.len() == 1 && w[0] == '0' ==> octal(w),
        w.len() == 1 && w[0] == '"' ==> string_open(w),
{
    lemma_number_start(w);
}
proof fn lemma_literals()
    ensures "_"@ == seq!['_'], "0"@ == seq!['0'], "0."@ == seq!['0', '.'], "0e"@ == seq!['0', 'e'], "0b"@ == seq!['0', 'b'], "0x"@ == seq!['0', 'x'], ""@ == Seq::<char>::empty(), "\\"@ == seq!['\\'],
{
    reveal_strlit("_"); reveal_strlit("0"); reveal_strlit("0."); reveal_strlit("0e"); reveal_strlit("0b"); reveal_strlit("0x"); reveal_strlit(""); reveal_strlit("\\");
    assert("_"@ =~= seq!['_'] && "0"@ =~= seq!['0'] && "0."@ =~= seq!['0', '.'] && "0e"@ =~= seq!['0', 'e'] && "0b"@ =~= seq!['0', 'b'] && "0x"@ =~= seq!['0', 'x'] && ""@ =~= Seq::<char>::empty() && "\\"@ =~= seq!['\\']);
}
/// the gathered texts of short texts
proof fn lemma_texts(w: Seq<char>, c: char)
    ensures
        w.len() == 0 ==> w.push(c) == seq![c],
        w.len() == 1 ==> w.push(c) == seq![w[0], c] && w.push(c).skip(1) == seq![c] && float_text(w.push(c)) == seq![small_e(w[0]), small_e(c)]
            && w.push(c).skip(2) == Seq::<char>::empty() && w.push(c).subrange(1, 1) == Seq::<char>::empty()
            && (seq!['0', 'b'] + w.push(c).skip(2)) == seq!['0', 'b'] && (seq!['0', 'x'] + w.push(c).skip(2)) == seq!['0', 'x'],
        decimal(w) || octal(w) ==> float_text(w) == w,
{
    if w.len() == 0 { assert(w.push(c) =~= seq![c]); }
    if w.len() == 1 {
        assert(w.push(c) =~= seq![w[0], c]);
        assert(w.push(c).skip(1) =~= seq![c]);
        assert(float_text(w.push(c)) =~= seq![small_e(w[0]), small_e(c)]);
        assert(w.push(c).skip(2) =~= Seq::<char>::empty());
        assert(w.push(c).subrange(1, 1) =~= Seq::<char>::empty());
        assert((seq!['0', 'b'] + w.push(c).skip(2)) =~= seq!['0', 'b']);
        assert((seq!['0', 'x'] + w.push(c).skip(2)) =~= seq!['0', 'x']);
    }
    if decimal(w) || octal(w) { assert forall|i: int| 0 <= i < w.len() implies small_e(#[trigger] w[i]) == w[i] by { assert(digit(w[i]) < 10); } assert(float_text(w) =~= w); }
}
pub open spec fn number_char(c: char) -> bool { digit(c) < 10 || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' }
pub open spec fn holds(w: Seq<char>, a: char, b: char) -> bool { exists|i: int| 0 <= i < w.len() && (#[trigger] w[i] == a || w[i] == b) }
/// what numbers consist of
proof fn lemma_numbers(w: Seq<char>)
    ensures
        mantissa(w) ==> holds(w, '.', '.') && !holds(w, 'e', 'E'),
        decimal(w) || octal(w) ==> !holds(w, '.', '.') && !holds(w, 'e', 'E'),
        exponent(w) || exponent_sign(w) || scaled(w) ==> holds(w, 'e', 'E'),
        mantissa(w) || exponent(w) || exponent_sign(w) || scaled(w) || decimal(w) || octal(w) ==> w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> number_char(#[trigger] w[i]),
        (mantissa(w) || exponent(w) || exponent_sign(w) || scaled(w)) && w[0] == '.' ==> digit(w[1]) < 10,
    decreases w.len(),
{
    if w.len() > 0 {
        let d = w.drop_last();
        lemma_numbers(d);
        lemma_starts(d);
        if decimal(w) || octal(w) { assert forall|i: int| 0 <= i < w.len() implies number_char(#[trigger] w[i]) && w[i] != '.' && w[i] != 'e' && w[i] != 'E' by { assert(digit(w[i]) < 10); } }
        if exponent(w) { assert(w[w.len() - 1] == 'e' || w[w.len() - 1] == 'E'); }
        if exponent_sign(w) || scaled(w) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i] == 'e' || d[i] == 'E'); assert(w[i] == d[i]); }
        if mantissa(w) && w.last() != '.' {
            if mantissa(d) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i] == '.' || d[i] == '.'); assert(w[i] == d[i]); } else { assert(w[0] == '.'); }
        }
        if mantissa(w) && w.last() == '.' { assert(w[w.len() - 1] == '.'); }
        if mantissa(w) || exponent(w) || exponent_sign(w) || scaled(w) {
            if mantissa(w) && w.last() != '.' && !mantissa(d) { assert(w.len() == 2); }
            assert forall|i: int| 0 <= i < w.len() implies number_char(#[trigger] w[i]) by { if i < d.len() { assert(w[i] == d[i]); if d.len() > 1 || w.last() == '.' { assert(number_char(d[i])); } } else { assert(w[i] == w.last()); } }
            assert(d[0] == w[0]);
            if d.len() > 1 { assert(d[1] == w[1]); }
        }
        if mantissa(w) {
            assert forall|i: int| 0 <= i < w.len() implies !(#[trigger] w[i] == 'e' || w[i] == 'E') by { if i < d.len() { assert(w[i] == d[i]); } else { assert(w[i] == w.last()); } }
        }
    }
}
/// the kinds of number texts exclude each other
proof fn lemma_kinds(w: Seq<char>)
    ensures
        decimal(w) || octal(w) ==> !mantissa(w) && !exponent(w) && !exponent_sign(w) && !scaled(w),
        decimal(w) ==> !octal(w),
        mantissa(w) ==> !exponent(w) && !exponent_sign(w) && !scaled(w),
        exponent(w) ==> !exponent_sign(w) && !scaled(w),
        exponent_sign(w) ==> !scaled(w),
        prefixed(w, 'b', 'B', 2) ==> !prefixed(w, 'x', 'X', 16),
        prefixed(w, 'b', 'B', 2) || prefixed(w, 'x', 'X', 16) ==> !mantissa(w) && !exponent(w) && !exponent_sign(w) && !scaled(w) && !octal(w) && !decimal(w),
        w.len() >= 2 && w[0] == '.' && w[1] == '.' ==> !mantissa(w) && !exponent(w) && !exponent_sign(w) && !scaled(w),
        !(string_open(w) && string_esc(w)), !(string_lit(w) && (string_open(w) || string_esc(w))),
        char_lit(w) ==> w.len() >= 3 && !char_body(w) && !char_hex(w) && !char_octal(w),
        char_simple(w) ==> !char_hex(w) && !char_octal(w), char_hex(w) ==> !char_octal(w), char_plain(w) ==> !char_esc(w),
        char_hex(w) || char_octal(w) ==> w.len() >= 3 && char_esc(w), char_octal(w) ==> w.len() <= 5,
{
    lemma_numbers(w);
    lemma_strings(w);
    if w.len() > 0 { lemma_strings(w.drop_last()); }
    if prefixed(w, 'b', 'B', 2) || prefixed(w, 'x', 'X', 16) { assert(!number_char(w[1])); if octal(w) { assert(digit(w[1]) < 8); } }
    if char_hex(w) && char_octal(w) { assert(digit(w[2]) < 8); }
    if char_simple(w) && char_octal(w) { assert(digit(w[2]) < 8); }
    if char_lit(w) { let k = w.len() - 1; assert(w[k] == '\''); if char_octal(w) { assert(digit(w[k]) < 8); } if char_hex(w) && k >= 3 { assert(digit(w[k]) < 16); } }
}
proof fn lemma_strings(w: Seq<char>)
    ensures !(string_open(w) && string_esc(w)),
    decreases w.len(),
{
    if w.len() > 0 { lemma_strings(w.drop_last()); }
}

//@fn src/front_end/lexer.rs is_identifier_char
//@ret r
//@subst c == &'_' => *c == '_'
//@spec
    ensures r == idc(*c),
//@end
//@fn src/front_end/lexer.rs parse_keyword
//@ret r
//@spec
    ensures r == keyword(name@),
//@start
    broadcast use same_text;
//@end
/// `==` of strings
#[verifier::external_body]
pub fn same_string(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// `iter().any(f)`
#[verifier::external_body]
pub fn any_of<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|k: int| 0 <= k < s@.len() ==> f.requires((&#[trigger] s@[k],)),
    ensures r ==> exists|k: int| 0 <= k < s@.len() && f.ensures((&#[trigger] s@[k],), true), !r ==> forall|k: int| 0 <= k < s@.len() ==> f.ensures((&#[trigger] s@[k],), false),
{ s.iter().any(f) }
//@fn src/front_end/lexer.rs lex_identifier
//@ret r
//@subst typedef_names.iter().any(|n| n == &name) => any_of(typedef_names, |n: &String| -> (r: bool) ensures r == (n@ == name@) { same_string(n, &name) })
//@spec
    requires ident(name@),
    ensures at(r, name@, typedef_names@),
//@end
//@fn src/front_end/lexer.rs Fsm::new
//@ret r
//@spec
    ensures at(r, seq![], seq![]), r.state is Start, r.token is None,
//@end
/// the states in which a token is complete
pub open spec fn done(s: State) -> bool {
    !(s is Start || s is Dot2 || s is Bin1 || s is Hex1 || s is Float2 || s is Float3 || s is String1 || s is String2 || s is String3
        || s is Char1 || s is Char2 || s is Char3 || s is Char4 || s is Char5 || s is Char6 || s is Char7 || s is Char8 || s is Char9)
}
//@fn src/front_end/lexer.rs Fsm::complete_token
//@ret r
//@spec
    ensures r is None || r == self.token,
        forall|w: Seq<char>, names: Seq<String>| #[trigger] at(*self, w, names) ==> match r { Some(t) => spells(w, t, names), None => !whole(w) },
//@start
    proof { assert forall|w: Seq<char>, names: Seq<String>| #[trigger] at(*self, w, names) implies (if done(self.state) { self.token is Some && spells(w, self.token->0, names) } else { !whole(w) }) by { lemma_kinds(w); lemma_starts(w); lemma_number_start(w); } }
//@end
//@fn src/front_end/lexer.rs Fsm::step
//@ret r
//@split 12
//@attr #[verifier::spinoff_prover]
//@subst s.push(input) => push_char(&mut s, input)
//@subst s.push(c) => push_char(&mut s, c)
//@subst s.push('.') => push_char(&mut s, '.')
//@subst s.push('e') => push_char(&mut s, 'e')
//@subst s.push('x') => push_char(&mut s, 'x')
//@subst name.push(input) => push_char(&mut name, input)
//@subst c.to_string() => text_of(c)
//@subst typedef_names: &[String] => typedef_names: &[String], Ghost(w): Ghost<Seq<char>>
//@spec
    requires at(self, w, typedef_names@),
    ensures match r { Some(f) => part(w.push(input)) && at(f, w.push(input), typedef_names@) && !(f.state is Start), None => !part(w.push(input)) },
//@start
    hide(mantissa); hide(scaled); hide(string_open); hide(string_esc); hide(ident); hide(decimal); hide(octal); hide(prefixed); hide(exponent); hide(exponent_sign); hide(string_lit); hide(char_hex); hide(char_octal); hide(char_lit);
    proof { lemma_push(w, input); lemma_number_start(w); lemma_number_start(w.push(input)); lemma_next(w, input); lemma_starts(w); lemma_kinds(w); lemma_literals(); lemma_texts(w, input); }
//@after let s = format!(".{c}")
    proof { assert(s@ == seq!['.', input]); }
//@after let s = format!("0{c}")
    proof { assert(s@ == seq!['0', input]); }
//@end
/// between a and b
pub open spec fn piece(r: Seq<(usize, char)>, a: int, b: int) -> Seq<char> { letters(r.subrange(a, b)) }
/// behind k spaces, the longest text that a token starts with ends at m
pub open spec fn munched(r: Seq<(usize, char)>, k: int, m: int) -> bool {
    0 <= k <= m <= r.len() && k < r.len() && (forall|i: int| 0 <= i < k ==> space(#[trigger] r[i].1)) && !space(r[k].1)
    && part(piece(r, k, m)) && (m == r.len() || !part(piece(r, k, m + 1)))
}
/// that text is determined, and no token is longer
pub proof fn lemma_munched(r: Seq<(usize, char)>, k: int, m: int, k2: int, m2: int)
    requires munched(r, k, m), munched(r, k2, m2),
    ensures k == k2, m == m2,
{
    if k < k2 { assert(space(r[k].1)); }
    if k2 < k { assert(space(r[k2].1)); }
    if m < m2 { lemma_no_longer(r, k, m, m2); }
    if m2 < m { lemma_no_longer(r, k, m2, m); }
}
pub proof fn lemma_no_longer(r: Seq<(usize, char)>, k: int, m: int, n: int)
    requires 0 <= k <= m < n <= r.len(), !part(piece(r, k, m + 1)),
    ensures !part(piece(r, k, n)),
    decreases n,
{
    if n > m + 1 {
        lemma_no_longer(r, k, m, n - 1);
        assert(piece(r, k, n).drop_last() =~= piece(r, k, n - 1));
        if part(piece(r, k, n)) { lemma_shorter(piece(r, k, n)); }
    }
}
pub proof fn lemma_no_longer_token(r: Seq<(usize, char)>, k: int, m: int, n: int, t: Token, names: Seq<String>)
    requires munched(r, k, m), m < n <= r.len(),
    ensures !spells(piece(r, k, n), t, names),
{
    lemma_no_longer(r, k, m, n);
    if spells(piece(r, k, n), t, names) { lemma_token_whole(piece(r, k, n), t, names); }
}
proof fn lemma_piece(r: Seq<(usize, char)>, k: int, n: int)
    requires 0 <= k <= n < r.len(),
    ensures piece(r, k, n + 1) == piece(r, k, n).push(r[n].1), r.skip(n).skip(1) == r.skip(n + 1), r.skip(n)[0] == r[n], piece(r, k, k) == Seq::<char>::empty(),
{
    assert(piece(r, k, n + 1) =~= piece(r, k, n).push(r[n].1));
    assert(r.skip(n).skip(1) =~= r.skip(n + 1));
    assert(piece(r, k, k) =~= Seq::<char>::empty());
}
/// the grammar's parser is generated code; it may add one name
//@fn src/front_end/lexer.rs Lexer::parse_typedef_name
//@external
//@ret r
//@spec
    ensures final(self).chars.rest() == old(self).chars.rest(), final(self).typedef_stmt_nesting_depth == old(self).typedef_stmt_nesting_depth,
        r is Err ==> r->Err_0 is InvalidTypedefDeclaration,
//@end
//@fn src/front_end/lexer.rs Lexer::new
//@ret r
//@subst input.char_indices().peekable() => char_indices_of(input)
//@spec
    ensures letters(r.chars.rest()) == input@, positioned(r.chars.rest()), r.typedef_names@.len() == 0,
//@end
//@fn src/front_end/lexer.rs Iterator for Lexer::next
//@inherent
//@ret r
//@subst c.is_whitespace() => is_space(*c)
//@subst Option<Self::Item> => Option<Spanned<Token, usize, LexError>>
//@subst fsm.step(c.to_owned(), &self.typedef_names) => fsm.step(c.to_owned(), &self.typedef_names, Ghost(piece(r0, k, n)))
//@spec
    requires positioned(old(self).chars.rest()), old(self).typedef_stmt_nesting_depth + old(self).chars.rest().len() <= u32::MAX,
    ensures
        positioned(final(self).chars.rest()), final(self).typedef_stmt_nesting_depth + final(self).chars.rest().len() <= u32::MAX,
        match r {
            None => final(self).chars.rest().len() == 0 && forall|i: int| 0 <= i < old(self).chars.rest().len() ==> space(#[trigger] old(self).chars.rest()[i].1),
            Some(Ok((s, t, e))) => exists|k: int, m: int| munched(old(self).chars.rest(), k, m) && k < m && s == old(self).chars.rest()[k].0
                && #[trigger] spells(piece(old(self).chars.rest(), k, m), t, old(self).typedef_names@) && final(self).chars.rest() == old(self).chars.rest().skip(m),
            Some(Err(LexError::InvalidTypedefDeclaration)) => exists|k: int, m: int| #[trigger] munched(old(self).chars.rest(), k, m) && k < m && op(piece(old(self).chars.rest(), k, m)) == Some(Token::Semicolon),
            Some(Err(_)) => exists|k: int, m: int| #[trigger] munched(old(self).chars.rest(), k, m) && !whole(piece(old(self).chars.rest(), k, m)),
        },
//@start
    let ghost r0 = self.chars.rest();
    let ghost names = self.typedef_names@;
    let ghost mut k = 0int;
    let ghost mut n = 0int;
    proof { assert(r0.skip(0) =~= r0); assert(piece(r0, 0, 0) =~= Seq::<char>::empty()); }
//@loop 0
    invariant
        0 <= k <= n <= r0.len(), positioned(r0), r0 == old(self).chars.rest(), names == old(self).typedef_names@, *self == (Lexer { chars: self.chars, ..*old(self) }), self.chars.rest() == r0.skip(n),
        old(self).typedef_stmt_nesting_depth + r0.len() <= u32::MAX,
        forall|i: int| 0 <= i < k ==> space(#[trigger] r0[i].1),
        at(fsm, piece(r0, k, n), names), part(piece(r0, k, n)),
        start is None ==> k == n && end is None && fsm.state is Start,
        start is Some ==> k < n && start == Some(r0[k].0) && !space(r0[k].1) && end == Some(r0[n - 1].0) && !(fsm.state is Start),
    decreases r0.len() - n,
//@loop 0 start
    proof { if n < r0.len() { lemma_piece(r0, k, n); } assert(r0.skip(r0.len() as int).len() == 0); }
//@after self.chars.next()##0
    proof { n = n + 1; k = n; lemma_piece(r0, k - 1, k - 1); assert(piece(r0, k, k) =~= Seq::<char>::empty()); }
//@after self.chars.next()##1
    proof { n = n + 1; }
//@before return match fsm.state
    proof { if start is Some { assert(munched(r0, k, n)); assert(r0.skip(n) =~= self.chars.rest()); if done(fsm.state) { assert(spells(piece(r0, k, n), fsm.token->0, names)); } } }
//@before return match current_token
    proof { assert(!space(r0[k].1)); assert(munched(r0, k, n)); if current_token is Some { assert(spells(piece(r0, k, n), current_token->0, names)); } }
//@end
