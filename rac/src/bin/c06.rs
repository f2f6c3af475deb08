//! C06: constant expressions: the evaluator against an independent one on random trees, and enumerators and array bounds of real programs.
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::front_end::ast::{BinaryOperator as B, Constant, Expression as E, Identifier, UnaryOperator as U};
use cc::middle_end::compile_time_eval::{eval_initialiser_constant_expression, eval_integral_constant_expression};
use cc::middle_end::instructions::Constant as Ir;

const BIN: [(fn() -> B, &str, u32); 18] = [
    (|| B::Mult, "*", 13), (|| B::Div, "/", 13), (|| B::Mod, "%", 13), (|| B::Add, "+", 12), (|| B::Sub, "-", 12), (|| B::LeftShift, "<<", 11), (|| B::RightShift, ">>", 11),
    (|| B::LessThan, "<", 10), (|| B::GreaterThan, ">", 10), (|| B::LessThanEq, "<=", 10), (|| B::GreaterThanEq, ">=", 10), (|| B::Equal, "==", 9), (|| B::NotEqual, "!=", 9),
    (|| B::BitwiseAnd, "&", 8), (|| B::BitwiseXor, "^", 7), (|| B::BitwiseOr, "|", 6), (|| B::LogicalAnd, "&&", 5), (|| B::LogicalOr, "||", 4),
];
const UN: [(fn() -> U, &str); 4] = [(|| U::Plus, "+"), (|| U::Minus, "-"), (|| U::BitwiseNot, "~"), (|| U::LogicalNot, "!")];
enum T { Int(u128), Float(f64), Char(u8), Un(usize, Box<T>), Bin(usize, Box<T>, Box<T>), Cond(Box<T>, Box<T>, Box<T>), NotConst(u64, Box<T>) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum V { I(i128), F(f64) }
/// what is known of a result: a value, that there is none, or nothing
#[derive(Clone, Copy, Debug)]
enum K { Is(V), None, Any }

fn leaf(r: &mut Rng, floats: bool, small: bool) -> T {
    match r.below(10) {
        0 if floats => T::Float(*r.pick(&[0.0, 0.5, 1.0, 2.0, 2.5, 1e10, 3.75, 1e300])),
        1 => T::Char(*r.pick(b"aA0z ~")),
        2 if !small => T::Int(*r.pick(&[i32::MAX as u128, u32::MAX as u128, 1 << 31, 1 << 32, i64::MAX as u128, 1 << 63, 1 << 64, i128::MAX as u128])),
        3 => T::Int(*r.pick(&[31, 32, 33, 62, 63, 64, 65, 128])),
        _ => T::Int(r.below(12) as u128),
    }
}
fn tree(r: &mut Rng, d: u32, floats: bool, small: bool, odd: bool) -> T {
    if d == 0 || r.chance(1, 6) { return leaf(r, floats, small); }
    let mut sub = |r: &mut Rng| Box::new(tree(r, d - 1, floats, small, odd));
    match r.below(12) {
        0..=2 => T::Un(r.below(4) as usize, sub(r)),
        3 => T::Cond(sub(r), sub(r), sub(r)),
        4 if odd && r.chance(1, 6) => T::NotConst(r.below(8), sub(r)),
        _ => { let k = if small { *r.pick(&[0, 1, 2, 3, 4, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]) } else { r.below(18) as usize }; T::Bin(k, sub(r), sub(r)) }
    }
}
fn ast(t: &T) -> E {
    let b = |t: &T| Box::new(ast(t));
    match t {
        T::Int(n) => E::Constant(Constant::Int(*n)),
        T::Float(f) => E::Constant(Constant::Float(*f)),
        T::Char(c) => E::Constant(Constant::Char(*c as char)),
        T::Un(k, a) => E::UnaryOp(UN[*k].0(), b(a)),
        T::Bin(k, x, y) => E::BinaryOp(BIN[*k].0(), b(x), b(y)),
        T::Cond(c, x, y) => E::Ternary(b(c), b(x), b(y)),
        T::NotConst(k, a) => match k {
            0 => E::Identifier(Identifier("x".into())), 1 => E::StringLiteral("s".into()), 2 => E::Index(b(a), b(a)), 3 => E::UnaryOp(U::Dereference, b(a)),
            4 => E::Assignment(b(a), b(a)), 5 => E::PostfixIncrement(b(a)), 6 => E::FunctionCall(b(a), vec![]), _ => E::UnaryOp(U::AddressOf, b(a)),
        },
    }
}
fn truth(v: V) -> bool { match v { V::I(i) => i != 0, V::F(f) => f != 0.0 } }
fn value(t: &T) -> K {
    use K::*;
    match t {
        T::Int(n) => Is(V::I(*n as i128)),
        T::Float(f) => Is(V::F(*f)),
        T::Char(c) => Is(V::I(*c as i128)),
        T::NotConst(..) => None,
        T::Un(k, a) => match (value(a), UN[*k].1) {
            (Is(v), "+") => Is(v),
            (Is(V::I(i)), "-") => if i == i128::MIN { None } else { Is(V::I(0 - i)) },
            (Is(V::F(f)), "-") => Is(V::F(-f)),
            (Is(V::I(i)), "~") => Is(V::I(-1 - i)),
            (Is(V::F(_)), "~") => None,
            (Is(v), _) => Is(V::I(if truth(v) { 0 } else { 1 })),
            (k, _) => k,
        },
        T::Cond(c, x, y) => match value(c) {
            Is(v) => match (value(if truth(v) { x } else { y }), value(if truth(v) { y } else { x })) { (Is(V::I(_)), Is(V::F(_))) => Any, (k, _) => k },
            k => k,
        },
        T::Bin(k, x, y) => {
            let op = BIN[*k].1;
            let (a, b) = (value(x), value(y));
            if op == "&&" || op == "||" {
                return match (a, b) {
                    (Is(V::I(l)), Is(V::I(r))) => Is(V::I((if op == "&&" { l != 0 && r != 0 } else { l != 0 || r != 0 }) as i128)),
                    // what isn't evaluated may or may not be looked at
                    (None, _) => None,
                    _ => Any,
                };
            }
            let (a, b) = match (a, b) { (None, _) | (_, None) => return None, (Is(a), Is(b)) => (a, b), _ => return Any };
            if let (V::I(l), V::I(r)) = (a, b) {
                let bit = |v: bool| Is(V::I(v as i128));
                let some = |o: Option<i128>| match o { Some(n) => Is(V::I(n)), Option::None => None };
                return match op {
                    "*" => some(l.checked_mul(r)), "+" => some(l.checked_add(r)), "-" => some(l.checked_sub(r)),
                    "/" => if r == 0 || (l == i128::MIN && r == -1) { None } else { let q = l.unsigned_abs() / r.unsigned_abs(); some(Some(if (l < 0) != (r < 0) { (q as i128).wrapping_neg() } else { q as i128 })) },
                    "%" => if r == 0 || (l == i128::MIN && r == -1) { None } else { let m = (l.unsigned_abs() % r.unsigned_abs()) as i128; some(Some(if l < 0 { -m } else { m })) },
                    "<<" => if !(0..64).contains(&r) { None } else { let mut n = Some(l); for _ in 0..r { n = n.and_then(|n| n.checked_mul(2)); } some(n) },
                    ">>" => if !(0..64).contains(&r) { None } else { let mut n = l; for _ in 0..r { n = n.div_euclid(2); } some(Some(n)) },
                    "<" => bit(l < r), ">" => bit(l > r), "<=" => bit(l <= r), ">=" => bit(l >= r), "==" => bit(l == r), "!=" => bit(l != r),
                    "&" => some(Some(l & r)), "|" => some(Some(l | r)), _ => some(Some((l | r) & !(l & r))),
                };
            }
            let f = |v: V| match v { V::I(i) => i as f64, V::F(f) => f };
            let (l, r) = (f(a), f(b));
            let bit = |v: bool| Is(V::I(v as i128));
            match op {
                "*" => Is(V::F(l * r)), "/" => Is(V::F(l / r)), "+" => Is(V::F(l + r)), "-" => Is(V::F(l - r)),
                "<" => bit(l < r), ">" => bit(l > r), "<=" => bit(l <= r), ">=" => bit(l >= r), "==" => bit(l == r), "!=" => bit(l != r),
                _ => None,
            }
        }
    }
}
/// C text with no more parentheses than needed
fn text(t: &T, r: &mut Rng) -> (String, u32) {
    let at = |t: &T, p: u32, r: &mut Rng| { let (s, q) = text(t, r); if q < p || r.chance(1, 12) { format!("({s})") } else { s } };
    match t {
        T::Int(n) => (match r.below(4) { 0 => format!("0x{n:x}"), 1 => format!("0{n:o}"), _ => format!("{n}") }, 15),
        T::Float(f) => (format!("{f:?}"), 15),
        T::Char(c) => (format!("'{}'", *c as char), 15),
        T::Un(k, a) => (format!("{} {}", UN[*k].1, at(a, 14, r)), 14),
        T::Bin(k, x, y) => { let (_, op, p) = BIN[*k]; (format!("{} {op} {}", at(x, p, r), at(y, p + 1, r)), p) }
        T::Cond(c, x, y) => (format!("{} ? {} : {}", at(c, 4, r), at(x, 3, r), at(y, 3, r)), 3),
        T::NotConst(_, a) => (format!("x{}", at(a, 15, r)), 1),
    }
}
fn evaluate(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (d, floats, small, odd) = (1 + r.below(4) as u32, r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    let t = tree(&mut r, d, floats, small, odd);
    let shown = text(&t, &mut r).0;
    c.case(|| shown.clone());
    let want = value(&t);
    let got = match guard(|| (eval_integral_constant_expression(ast(&t)).ok(), eval_initialiser_constant_expression(ast(&t)).ok())) {
        Ok(g) => g,
        Err(e) => { c.fail("crash", "a constant expression has a value or is rejected, nothing crashes", shown, format!("{want:?}"), e); return; }
    };
    let want_int = match want { K::Is(V::I(i)) => Some(i), K::Any => return, _ => None };
    if got.0 != want_int { c.fail("value", "an integer constant expression has C's value", shown, format!("{want_int:?}"), format!("{:?}", got.0)); return; }
    let same = match (want, &got.1) { (K::Is(V::I(i)), Some(Ir::Int(j))) => i == *j, (K::Is(V::F(f)), Some(Ir::Float(g))) => f.to_bits() == g.to_bits() || (f.is_nan() && g.is_nan()), (K::None, None) => true, _ => false };
    if !same { c.fail("value", "a constant expression has C's value", shown, format!("{want:?}"), format!("{:?}", got.1)); }
}
/// the expression as an enumerator and as an array bound
fn program(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let d = 1 + r.below(3) as u32;
    let t = tree(&mut r, d, false, true, false);
    let s = text(&t, &mut r).0;
    let want = value(&t);
    let n = match want { K::Is(V::I(n)) => n, _ => 0 };
    let fits = matches!(want, K::Is(_)) && n.abs() < 1 << 30;
    let src = match r.below(3) {
        0 if fits && n > 0 && n < 500 => format!("int main() {{ int z[{s}]; int r = sizeof(z) / sizeof(int); return r; }}"),
        0 => format!("int main() {{ int y = 1; enum e {{ A, B = {s}, C }}; int r = B; return r; }}"),
        1 => format!("int main() {{ enum e {{ A = 3, B = {s}, C }}; int r = C; return r; }}"),
        _ => format!("enum e {{ A = {s} }}; int main() {{ int r = A; return r; }}"),
    };
    c.case(|| src.clone());
    for o in [OPT, NOOPT] {
        // `compile` gives panics as errors that say so
        let got = match guard(|| compile(&src, o)) { Ok(g) => g, Err(e) => Err(format!("panic: {e}")) };
        match (want, got) {
            (_, Err(e)) if e.contains("panic") => { c.fail("crash", "a constant expression has a value or is rejected, nothing crashes", src, format!("{want:?}"), e); return; }
            (K::Is(_), Ok(m)) if fits => {
                let n = if src.contains("r = C") { n + 1 } else { n };
                match execute(m) { Ok(x) if x.exit as i128 == n => {} x => { c.fail("program", "an enumerator or array bound has the value of its expression", src, n.to_string(), match x { Ok(x) => x.exit.to_string(), Err(_) => "it stops".into() }); return; } }
            }
            (K::Is(_), Err(e)) if fits => { c.fail("program", "a program with constant expressions compiles", src, n.to_string(), e); return; }
            (K::None, Ok(_)) => { c.fail("undefined", "an expression without a value is rejected", src, "an error", "it compiles"); return; }
            _ => {}
        }
    }
}
fn fixed(c: &mut Ctx) {
    for (b, ok) in [("0 - 1", false), ("-3", false), ("1 ? -1 : 1", false), ("3", true), ("(2 + 1) * 2", true)] {
        let src = format!("int main() {{ int z[{b}]; return 0; }}");
        c.case(|| src.clone());
        match guard(|| compile(&src, OPT)) {
            Err(e) => c.fail("crash", "an array bound that makes no sense is rejected", src, "an error", e),
            Ok(Err(e)) if e.contains("panic") => c.fail("crash", "an array bound that makes no sense is rejected", src, "an error", e),
            Ok(x) => if x.is_ok() != ok { c.fail("bound", "negative array bounds are rejected, others are not", src, ok.to_string(), (!ok).to_string()) },
        }
    }
}
fn main() {
    run("C06", "random expression trees with every operator, integer, character and floating constants, nesting up to four, operands that are not constant: the evaluator against an independent one; random enumerators and array bounds in compiled programs, printed with few parentheses, run in the interpreter", |c| {
        fixed(c);
        for _ in 0..c.n(60_000, 1_500_000) { evaluate(c); if c.too_many() { return; } }
        for _ in 0..c.n(2_500, 40_000) { program(c); if c.too_many() { return; } }
    });
}
