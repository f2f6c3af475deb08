// constant expressions evaluated at compile time
use vstd::arithmetic::power2::*;
#[verifier::external_body]
pub struct TypeName {}
#[verifier::external_body]
pub struct IrType {}
#[verifier::external_body]
pub struct FunId {}
#[verifier::external_body]
pub struct VarId {}
//@type src/front_end/ast.rs Identifier
//@type src/front_end/ast.rs Constant
//@type src/front_end/ast.rs UnaryOperator
//@type src/front_end/ast.rs BinaryOperator
//@type src/front_end/ast.rs Expression
//@type src/middle_end/middle_end_error.rs MiddleEndError
//@type src/middle_end/compile_time_eval.rs ConstantExpressionType

// IEEE arithmetic is uninterpreted: the operators are functions of their operands
pub uninterp spec fn int_f64(n: i128) -> f64;
pub uninterp spec fn f_add(a: f64, b: f64) -> f64;
pub uninterp spec fn f_sub(a: f64, b: f64) -> f64;
pub uninterp spec fn f_mul(a: f64, b: f64) -> f64;
pub uninterp spec fn f_div(a: f64, b: f64) -> f64;
pub uninterp spec fn f_neg(a: f64) -> f64;
pub uninterp spec fn f_lt(a: f64, b: f64) -> bool;
pub uninterp spec fn f_le(a: f64, b: f64) -> bool;
pub uninterp spec fn f_eq(a: f64, b: f64) -> bool;
pub broadcast axiom fn cast_i_f64(n: i128, r: f64) requires #[trigger] vstd::float::float_cast_spec(n, r) ensures r == int_f64(n);
pub broadcast axiom fn ieee_add(a: f64, b: f64, o: f64) requires #[trigger] vstd::std_specs::ops::add_ensures(a, b, o) ensures o == f_add(a, b);
pub broadcast axiom fn ieee_sub(a: f64, b: f64, o: f64) requires #[trigger] vstd::std_specs::ops::sub_ensures(a, b, o) ensures o == f_sub(a, b);
pub broadcast axiom fn ieee_mul(a: f64, b: f64, o: f64) requires #[trigger] vstd::std_specs::ops::mul_ensures(a, b, o) ensures o == f_mul(a, b);
pub broadcast axiom fn ieee_div(a: f64, b: f64, o: f64) requires #[trigger] vstd::std_specs::ops::div_ensures(a, b, o) ensures o == f_div(a, b);
pub broadcast axiom fn ieee_add_any(a: f64, b: f64) ensures #[trigger] <f64 as vstd::std_specs::ops::AddSpec<f64>>::add_req(a, b);
pub broadcast axiom fn ieee_sub_any(a: f64, b: f64) ensures #[trigger] <f64 as vstd::std_specs::ops::SubSpec<f64>>::sub_req(a, b);
pub broadcast axiom fn ieee_mul_any(a: f64, b: f64) ensures #[trigger] <f64 as vstd::std_specs::ops::MulSpec<f64>>::mul_req(a, b);
pub broadcast axiom fn ieee_div_any(a: f64, b: f64) ensures #[trigger] <f64 as vstd::std_specs::ops::DivSpec<f64>>::div_req(a, b);
pub broadcast axiom fn ieee_add_comm(a: f64, b: f64) ensures #[trigger] f_add(a, b) == f_add(b, a);
pub broadcast axiom fn ieee_mul_comm(a: f64, b: f64) ensures #[trigger] f_mul(a, b) == f_mul(b, a);
pub broadcast axiom fn ieee_lt(a: f64, b: f64, o: bool) requires #[trigger] vstd::std_specs::cmp::lt_ensures(a, b, o) ensures o == f_lt(a, b);
pub broadcast axiom fn ieee_gt(a: f64, b: f64, o: bool) requires #[trigger] vstd::std_specs::cmp::gt_ensures(a, b, o) ensures o == f_lt(b, a);
pub broadcast axiom fn ieee_le(a: f64, b: f64, o: bool) requires #[trigger] vstd::std_specs::cmp::le_ensures(a, b, o) ensures o == f_le(a, b);
pub broadcast axiom fn ieee_ge(a: f64, b: f64, o: bool) requires #[trigger] vstd::std_specs::cmp::ge_ensures(a, b, o) ensures o == f_le(b, a);
pub broadcast axiom fn ieee_eq(a: f64, b: f64, o: bool) requires #[trigger] vstd::std_specs::cmp::eq_ensures(a, b, o) ensures o == f_eq(a, b);
pub broadcast axiom fn ieee_ne(a: f64, b: f64, o: bool) requires #[trigger] vstd::std_specs::cmp::ne_ensures(a, b, o) ensures o == !f_eq(a, b);
broadcast use cast_i_f64;
broadcast use ieee_add;
broadcast use ieee_sub;
broadcast use ieee_mul;
broadcast use ieee_div;
broadcast use ieee_add_any;
broadcast use ieee_sub_any;
broadcast use ieee_mul_any;
broadcast use ieee_div_any;
broadcast use ieee_add_comm;
broadcast use ieee_mul_comm;
broadcast use ieee_lt;
broadcast use ieee_gt;
broadcast use ieee_le;
broadcast use ieee_ge;
broadcast use ieee_eq;
broadcast use ieee_ne;
#[verifier::external_body]
pub fn neg_f64(a: f64) -> (r: f64) ensures r == f_neg(a) { -a }

// C's integer arithmetic, on mathematical integers
pub open spec fn abs(a: int) -> int { if a < 0 { -a } else { a } }
/// the quotient, truncated towards zero
pub open spec fn quot(a: int, b: int) -> int { let q = abs(a) / abs(b); if (a < 0) == (b < 0) { q } else { -q } }
pub open spec fn rest(a: int, b: int) -> int { a - b * quot(a, b) }
pub open spec fn fits(a: int) -> bool { i128::MIN <= a <= i128::MAX }
// core's checked division and remainder, as documented: None for a zero divisor and for MIN by -1
#[verifier::external_body]
pub fn div_of(a: i128, b: i128) -> (r: Option<i128>)
    ensures match r { None => b == 0 || !fits(quot(a as int, b as int)), Some(q) => b != 0 && q == quot(a as int, b as int) },
{ a.checked_div(b) }
#[verifier::external_body]
pub fn rem_of(a: i128, b: i128) -> (r: Option<i128>)
    ensures match r { None => b == 0 || !fits(quot(a as int, b as int)), Some(q) => b != 0 && fits(quot(a as int, b as int)) && q == rest(a as int, b as int) },
{ a.checked_rem(b) }
pub assume_specification [i128::checked_neg] (x: i128) -> (o: Option<i128>) ensures o == (if x == i128::MIN { None } else { Some((-x) as i128) });

proof fn shl_pow2(r: nat)
    requires r < 64,
    ensures (1i128 << (r as u128)) == pow2(r), 0 < pow2(r) <= 0x8000_0000_0000_0000,
    decreases r,
{
    if r == 0 { lemma2_to64(); assert(1i128 << 0u128 == 1) by (bit_vector); }
    else {
        shl_pow2((r - 1) as nat); lemma_pow2_unfold(r);
        let s = (r - 1) as u128;
        assert(s < 63 ==> (1i128 << add(s, 1)) == mul(2, 1i128 << s)) by (bit_vector);
        assert(r as u128 == add(s, 1));
        assert(s < 63 ==> 0 < 1i128 << s <= 0x4000_0000_0000_0000) by (bit_vector);
    }
}
proof fn shr_pow2(l: i128, r: nat) -> (b: int)
    requires r < 64,
    ensures l == (l >> (r as u128)) * pow2(r) + b, 0 <= b < pow2(r),
    decreases r,
{
    if r == 0 { lemma2_to64(); assert(l >> 0u128 == l) by (bit_vector); 0 }
    else {
        let c = shr_pow2(l, (r - 1) as nat);
        lemma_pow2_unfold(r);
        let s = (r - 1) as u128;
        let x = l >> s;
        assert(s < 63 ==> l >> add(s, 1) == (l >> s) >> 1u128) by (bit_vector);
        assert(x == add(mul(2, x >> 1u128), x & 1) && 0 <= (x & 1) <= 1 && -0x4000_0000_0000_0000_0000_0000_0000_0000 <= (x >> 1u128) < 0x4000_0000_0000_0000_0000_0000_0000_0000) by (bit_vector);
        assert(r as u128 == add(s, 1));
        let y = (x >> 1u128) as int; let q = pow2((r - 1) as nat); let d = (x & 1) as int;
        assert((2 * y + d) * q + c == y * (2 * q) + (d * q + c)) by (nonlinear_arith);
        assert(0 <= d * q <= q) by (nonlinear_arith) requires 0 <= d <= 1, q >= 0;
        d * q + c
    }
}
/// an arithmetic right shift divides, rounding down
proof fn shr_floor(l: i128, r: i128)
    requires 0 <= r < 64,
    ensures (l >> r) == (l as int) / (pow2(r as nat) as int),
{
    let b = shr_pow2(l, r as nat);
    shl_pow2(r as nat);
    let p = pow2(r as nat) as int;
    assert(l >> r == l >> (r as u128));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l as int, p, (l >> r) as int, b);
}
proof fn shl_is(r: i128)
    requires 0 <= r < 64,
    ensures (1i128 << r) == pow2(r as nat),
{
    shl_pow2(r as nat);
    assert((1i128 << r) == (1i128 << (r as u128)));
}

//@const src/middle_end/compile_time_eval.rs MAX_SHIFT
//@fn src/middle_end/compile_time_eval.rs integer_result
//@ret r
//@spec
    ensures match result { Some(i) => r == Ok::<ConstantExpressionType, MiddleEndError>(ConstantExpressionType::Int(i)), None => r is Err },
//@end
//@fn src/middle_end/compile_time_eval.rs shift_left
//@ret o
//@spec
    ensures o == (if 0 <= r < 64 && fits(l * pow2(r as nat)) { Some((l * pow2(r as nat)) as i128) } else { None }),
//@start
    proof { if 0 <= r < 64 { shl_is(r); } }
//@end
//@fn src/middle_end/compile_time_eval.rs shift_right
//@ret o
//@spec
    ensures o == (if 0 <= r < 64 { Some((l as int / pow2(r as nat) as int) as i128) } else { None }), 0 <= r < 64 ==> fits(l as int / pow2(r as nat) as int),
//@start
    proof { if 0 <= r < 64 { shr_floor(l, r); } }
//@end

/// a value, as C gives it: no value where the operation is undefined or the expression is not constant
pub enum Num { Int(int), Float(f64) }
pub open spec fn whole(n: int) -> Option<Num> { if fits(n) { Some(Num::Int(n)) } else { None } }
pub open spec fn truth(b: bool) -> Option<Num> { Some(Num::Int(if b { 1 } else { 0 })) }
pub open spec fn real(n: Num) -> f64 { match n { Num::Int(i) => int_f64(i as i128), Num::Float(f) => f } }
pub open spec fn zero(n: Num) -> bool { match n { Num::Int(i) => i == 0, Num::Float(f) => f_eq(f, 0f64) } }
pub open spec fn binary(op: BinaryOperator, a: Num, b: Num) -> Option<Num> {
    if let (Num::Int(l), Num::Int(r)) = (a, b) {
        match op {
            BinaryOperator::Mult => whole(l * r),
            BinaryOperator::Div => if r == 0 { None } else { whole(quot(l, r)) },
            BinaryOperator::Mod => if r == 0 || !fits(quot(l, r)) { None } else { whole(rest(l, r)) },
            BinaryOperator::Add => whole(l + r),
            BinaryOperator::Sub => whole(l - r),
            BinaryOperator::LeftShift => if 0 <= r < 64 { whole(l * pow2(r as nat)) } else { None },
            BinaryOperator::RightShift => if 0 <= r < 64 { whole(l / pow2(r as nat) as int) } else { None },
            BinaryOperator::LessThan => truth(l < r),
            BinaryOperator::GreaterThan => truth(l > r),
            BinaryOperator::LessThanEq => truth(l <= r),
            BinaryOperator::GreaterThanEq => truth(l >= r),
            BinaryOperator::Equal => truth(l == r),
            BinaryOperator::NotEqual => truth(l != r),
            BinaryOperator::BitwiseAnd => Some(Num::Int((l as i128 & r as i128) as int)),
            BinaryOperator::BitwiseOr => Some(Num::Int((l as i128 | r as i128) as int)),
            BinaryOperator::BitwiseXor => Some(Num::Int((l as i128 ^ r as i128) as int)),
            BinaryOperator::LogicalAnd => truth(l != 0 && r != 0),
            BinaryOperator::LogicalOr => truth(l != 0 || r != 0),
        }
    } else {
        let (x, y) = (real(a), real(b));
        match op {
            BinaryOperator::Mult => Some(Num::Float(f_mul(x, y))),
            BinaryOperator::Div => Some(Num::Float(f_div(x, y))),
            BinaryOperator::Add => Some(Num::Float(f_add(x, y))),
            BinaryOperator::Sub => Some(Num::Float(f_sub(x, y))),
            BinaryOperator::LessThan => truth(f_lt(x, y)),
            BinaryOperator::GreaterThan => truth(f_lt(y, x)),
            BinaryOperator::LessThanEq => truth(f_le(x, y)),
            BinaryOperator::GreaterThanEq => truth(f_le(y, x)),
            BinaryOperator::Equal => truth(f_eq(x, y)),
            BinaryOperator::NotEqual => truth(!f_eq(x, y)),
            _ => None,
        }
    }
}
pub open spec fn value(e: Expression) -> Option<Num>
    decreases e,
{
    match e {
        Expression::Constant(Constant::Int(i)) => Some(Num::Int((i as i128) as int)),
        Expression::Constant(Constant::Float(f)) => Some(Num::Float(f)),
        Expression::Constant(Constant::Char(c)) => Some(Num::Int((c as i128) as int)),
        Expression::UnaryOp(op, a) => match value(*a) {
            None => None,
            Some(n) => match (op, n) {
                (UnaryOperator::Plus, _) => Some(n),
                (UnaryOperator::Minus, Num::Int(i)) => whole(-i),
                (UnaryOperator::Minus, Num::Float(f)) => Some(Num::Float(f_neg(f))),
                (UnaryOperator::BitwiseNot, Num::Int(i)) => Some(Num::Int(-i - 1)),
                (UnaryOperator::LogicalNot, _) => truth(zero(n)),
                _ => None,
            },
        },
        Expression::BinaryOp(op, a, b) => match (value(*a), value(*b)) { (Some(l), Some(r)) => binary(op, l, r), _ => None },
        Expression::Ternary(c, a, b) => match value(*c) { None => None, Some(n) => if zero(n) { value(*b) } else { value(*a) } },
        _ => None,
    }
}
pub open spec fn gives(r: Result<ConstantExpressionType, MiddleEndError>, v: Option<Num>) -> bool {
    match (r, v) {
        (Ok(ConstantExpressionType::Int(i)), Some(Num::Int(n))) => i == n,
        (Ok(ConstantExpressionType::Float(f)), Some(Num::Float(g))) => f == g,
        (Err(_), None) => true,
        _ => false,
    }
}
proof fn lemma_not(i: i128) ensures (!i) == -i - 1 { assert(!i == sub(sub(0, i), 1)) by (bit_vector); assert(i == i128::MIN ==> !i == i128::MAX) by (bit_vector); }
/// values are within range
proof fn lemma_range(e: Expression)
    ensures value(e) matches Some(Num::Int(n)) ==> fits(n),
    decreases e,
{
    match e {
        Expression::UnaryOp(_, a) => { lemma_range(*a); }
        Expression::BinaryOp(_, a, b) => { lemma_range(*a); lemma_range(*b); }
        Expression::Ternary(c, a, b) => { lemma_range(*a); lemma_range(*b); }
        _ => {}
    }
}
pub open spec fn ranged(e: Expression) -> bool { value(e) matches Some(Num::Int(n)) ==> fits(n) }
proof fn lemma_operands(e: Expression)
    ensures match e { Expression::UnaryOp(_, a) => ranged(*a), Expression::BinaryOp(_, a, b) => ranged(*a) && ranged(*b), _ => true },
{
    match e { Expression::UnaryOp(_, a) => { lemma_range(*a); } Expression::BinaryOp(_, a, b) => { lemma_range(*a); lemma_range(*b); } _ => {} }
}
//@fn src/middle_end/compile_time_eval.rs eval
//@ret res
//@subst AstConstant::Int => Constant::Int
//@subst AstConstant::Float => Constant::Float
//@subst AstConstant::Char => Constant::Char
//@subst ConstantExpressionType::Float(-f) => ConstantExpressionType::Float(neg_f64(f))
//@subst l.checked_div(r) => div_of(l, r)
//@subst l.checked_rem(r) => rem_of(l, r)
//@spec
    ensures gives(res, value(expr)),
    decreases expr,
//@start
    proof {
        lemma_operands(expr);
        assert forall|i: i128| (#[trigger] !i) == -i - 1 by { lemma_not(i); }
    }
//@end
//@fn src/middle_end/compile_time_eval.rs eval_integral_constant_expression
//@ret res
//@spec
    ensures match res { Ok(n) => value(expr) == Some(Num::Int(n as int)), Err(_) => !(value(expr) matches Some(Num::Int(_))) },
//@end
