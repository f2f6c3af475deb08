// escapes in string and character literals
// the characters still to come; std's Peekable<Chars> is opaque
#[verifier::external_body]
pub struct Chars<'a> { c: &'a str }
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Peekable<C> { c: C }
impl<'a> Peekable<Chars<'a>> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r { None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(), Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self).rest() == old(self).rest(), match r { None => old(self).rest().len() == 0, Some(c) => old(self).rest().len() > 0 && *c == old(self).rest()[0] },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn chars_of<'a>(s: &'a str) -> (r: Peekable<Chars<'a>>) ensures r.rest() == s@ { unimplemented!() }
//@type src/front_end/interpret_string.rs Error
//@type src/front_end/interpret_string.rs InterpretString

/// the value of a digit, 36 for anything else
pub open spec fn digit(c: char) -> nat {
    let n = c as nat;
    if 48 <= n <= 57 { (n - 48) as nat } else if 97 <= n <= 122 { (n - 87) as nat } else if 65 <= n <= 90 { (n - 55) as nat } else { 36 }
}
pub open spec fn digits(s: Seq<char>, radix: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] digit(s[i]) < radix }
/// the digits that a text starts with
pub open spec fn leading(s: Seq<char>, radix: nat) -> nat
    decreases s.len(),
{ if s.len() > 0 && digit(s[0]) < radix { 1 + leading(s.skip(1), radix) } else { 0 } }
pub open spec fn number(s: Seq<char>, radix: nat) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { number(s.drop_last(), radix) * radix + digit(s.last()) } }
/// a code that a character has
pub open spec fn code(n: nat) -> bool { n < 0xD800 || 0xE000 <= n <= 0x10FFFF }
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool) ensures r == (digit(*c) < 16);
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (digit(c) < radix);
pub assume_specification [char::from_u32] (n: u32) -> (r: Option<char>) ensures match r { None => !code(n as nat), Some(c) => code(n as nat) && c as nat == n };
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseIntError {}
/// u32::from_str_radix, for digits only
#[verifier::external_body]
pub fn parse_u32(s: &String, radix: u32) -> (r: Result<u32, ParseIntError>)
    requires 2 <= radix <= 36, s@.len() > 0, digits(s@, radix as nat),
    ensures match r { Ok(n) => number(s@, radix as nat) == n, Err(_) => number(s@, radix as nat) > u32::MAX },
{ unimplemented!() }
/// the length in bytes: digits take one each
#[verifier::external_body]
pub fn bytes_of(s: &String) -> (r: usize)
    ensures digits(s@, 8) || digits(s@, 16) ==> r == s@.len(),
{ s.len() }
#[verifier::external_body]
pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }

pub enum Piece { Bad, Char { c: char, taken: nat } }
pub open spec fn coded(n: nat, taken: nat) -> Piece { if code(n) { Piece::Char { c: n as char, taken } } else { Piece::Bad } }
/// what a text starts with: a character and how much of the text denotes it
pub open spec fn first(s: Seq<char>) -> Piece {
    if s[0] != '\\' { Piece::Char { c: s[0], taken: 1 } }
    else if s.len() == 1 { Piece::Bad }
    else if s[1] == '\'' || s[1] == '"' || s[1] == '?' || s[1] == '\\' { Piece::Char { c: s[1], taken: 2 } }
    else if s[1] == 'a' { coded(7, 2) }
    else if s[1] == 'b' { coded(8, 2) }
    else if s[1] == 't' { coded(9, 2) }
    else if s[1] == 'n' { coded(10, 2) }
    else if s[1] == 'v' { coded(11, 2) }
    else if s[1] == 'f' { coded(12, 2) }
    else if s[1] == 'r' { coded(13, 2) }
    else if s[1] == 'x' { let k = leading(s.skip(2), 16); if k == 0 { Piece::Bad } else { coded(number(s.subrange(2, 2 + k as int), 16), 2 + k) } }
    else if digit(s[1]) < 8 { let n = leading(s.skip(1), 8); let k = if n < 3 { n } else { 3 }; coded(number(s.subrange(1, 1 + k as int), 8), 1 + k) }
    else { Piece::Bad }
}
pub open spec fn text(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Some(seq![]) }
    else {
        match first(s) {
            Piece::Bad => None,
            Piece::Char { c, taken } => if 0 < taken <= s.len() { match text(s.skip(taken as int)) { Some(t) => Some(seq![c] + t), None => None } } else { None },
        }
    }
}
proof fn lemma_leading(s: Seq<char>, k: nat, radix: nat)
    requires k <= s.len(), digits(s.subrange(0, k as int), radix), k == s.len() || digit(s[k as int]) >= radix,
    ensures leading(s, radix) == k,
    decreases k,
{
    if k > 0 {
        assert(s.subrange(0, k as int)[0] == s[0]);
        assert(s.skip(1).subrange(0, k - 1) =~= s.subrange(0, k as int).skip(1));
        lemma_leading(s.skip(1), (k - 1) as nat, radix);
    }
}
proof fn lemma_at_least(s: Seq<char>, k: nat, radix: nat)
    requires k <= s.len(), digits(s.subrange(0, k as int), radix),
    ensures leading(s, radix) >= k,
    decreases k,
{
    if k > 0 {
        assert(s.subrange(0, k as int)[0] == s[0]);
        assert(s.skip(1).subrange(0, k - 1) =~= s.subrange(0, k as int).skip(1));
        lemma_at_least(s.skip(1), (k - 1) as nat, radix);
    }
}
proof fn lemma_step(s: Seq<char>, k: int, radix: nat)
    requires 0 <= k < s.len(),
    ensures s.subrange(0, k + 1) == s.subrange(0, k).push(s[k]), s.skip(k).skip(1) == s.skip(k + 1),
        digits(s.subrange(0, k), radix) && digit(s[k]) < radix ==> digits(s.subrange(0, k + 1), radix),
        s.skip(k)[0] == s[k],
{
    assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
}
proof fn lemma_octal(s: Seq<char>)
    requires s.len() <= 3, digits(s, 8),
    ensures number(s, 8) <= 511,
{
    reveal_with_fuel(number, 4);
}
//@fn src/front_end/interpret_string.rs InterpretString::new
//@ret r
//@subst s.chars().peekable() => chars_of(s)
//@spec
    ensures r.s.rest() == s@,
//@end
//@fn src/front_end/interpret_string.rs Iterator for InterpretString::next
//@inherent
//@ret r
//@subst buffer.push(c) => push_char(&mut buffer, c)
//@subst buffer.push(self.s.next().unwrap()) => { let d = self.s.next().unwrap(); push_char(&mut buffer, d) }
//@subst Option<Self::Item> => Option<Result<char, Error>>
//@subst u32::from_str_radix => parse_u32
//@subst buffer.len() => bytes_of(&buffer)
//@spec
    ensures
        old(self).s.rest().len() == 0 ==> r is None,
        old(self).s.rest().len() > 0 ==> r is Some && match first(old(self).s.rest()) {
            Piece::Bad => r->0 is Err,
            Piece::Char { c, taken } => r->0 == Ok::<char, Error>(c) && 0 < taken <= old(self).s.rest().len() && final(self).s.rest() == old(self).s.rest().skip(taken as int),
        },
//@start
    let ghost r0 = self.s.rest();
    let ghost r1 = r0.skip(1);
    let ghost r2 = r0.skip(2);
    proof { if r0.len() >= 2 { assert(r1.skip(1) =~= r2); assert(r1[0] == r0[1]); } if r1.len() > 0 { lemma_step(r1, 0, 8); } }
//@loop 0
    invariant_except_break
        buffer@.len() < r2.len(), buffer@ == r2.subrange(0, buffer@.len() as int), digits(buffer@, 16),
        self.s.rest() == r2.skip(buffer@.len() as int), digit(self.s.rest()[0]) < 16,
    ensures
        0 < buffer@.len() <= r2.len(), buffer@ == r2.subrange(0, buffer@.len() as int), digits(buffer@, 16),
        self.s.rest() == r2.skip(buffer@.len() as int), buffer@.len() == r2.len() || digit(r2[buffer@.len() as int]) >= 16,
    decreases self.s.rest().len(),
//@loop 0 start
    proof { lemma_step(r2, buffer@.len() as int, 16); }
//@loop 0 after
    proof {
        let k = buffer@.len();
        lemma_leading(r2, k, 16);
        assert(r0.subrange(2, 2 + k as int) =~= buffer@);
        assert(r0.skip(2 + k as int) =~= self.s.rest());
    }
//@loop 1
    invariant_except_break
        0 < buffer@.len() <= 3, buffer@.len() <= r1.len(), buffer@ == r1.subrange(0, buffer@.len() as int), digits(buffer@, 8),
        self.s.rest() == r1.skip(buffer@.len() as int),
    ensures
        0 < buffer@.len() <= 3, buffer@.len() <= r1.len(), buffer@ == r1.subrange(0, buffer@.len() as int), digits(buffer@, 8),
        self.s.rest() == r1.skip(buffer@.len() as int), buffer@.len() == 3 || buffer@.len() == r1.len() || digit(r1[buffer@.len() as int]) >= 8,
    decreases self.s.rest().len(),
//@loop 1 start
    proof { if buffer@.len() < r1.len() { lemma_step(r1, buffer@.len() as int, 8); } }
//@loop 1 after
    proof {
        let k = buffer@.len();
        if k == 3 { lemma_at_least(r1, k, 8); } else { lemma_leading(r1, k, 8); }
        lemma_octal(buffer@);
        assert(r0.subrange(1, 1 + k as int) =~= buffer@);
        assert(r0.skip(1 + k as int) =~= self.s.rest());
    }
//@end
/// std's collect into a Result<String, _>: the characters up to the end, or the first error; it
/// calls `next` until that gives nothing or an error, and `next` gives `first` of what is left
#[verifier::external_body]
fn collect_all<'a>(i: InterpretString<'a>) -> (r: Result<String, Error>)
    ensures match r { Ok(t) => text(i.s.rest()) == Some(t@), Err(_) => text(i.s.rest()) is None },
{ unimplemented!() }
//@fn src/front_end/interpret_string.rs interpret_string
//@ret r
//@subst InterpretString::new(s).collect() => collect_all(InterpretString::new(s))
//@spec
    ensures match r { Ok(t) => text(s@) == Some(t@), Err(_) => text(s@) is None },
//@end
