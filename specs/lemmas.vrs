pub mod lem { use super::*;
verus! {
pub proof fn lemma_real_mul(a: int, b: int) ensures (a as real) * (b as real) == (a * b) as real
    decreases if b < 0 { -b } else { b }
{
    if b == 0 {
        assert(a * b == 0) by(nonlinear_arith) requires b == 0;
        assert((a as real) * (b as real) == 0real) by(nonlinear_arith) requires b as real == 0real;
    } else if b > 0 {
        lemma_real_mul(a, b - 1);
        let c = b - 1;
        assert(a * b == a * c + a) by(nonlinear_arith) requires b == c + 1;
        assert((a as real) * (b as real) == (a as real) * (c as real) + (a as real)) by(nonlinear_arith) requires b as real == (c as real) + 1real;
    } else {
        lemma_real_mul(a, b + 1);
        let c = b + 1;
        assert(a * b == a * c - a) by(nonlinear_arith) requires b == c - 1;
        assert((a as real) * (b as real) == (a as real) * (c as real) - (a as real)) by(nonlinear_arith) requires b as real == (c as real) - 1real;
    }
}
// (a-b)*(c-d) computed in the reals is the integer product
pub proof fn lemma_real_prod(a: int, b: int)
    ensures (a as real) * (b as real) == (a * b) as real
{ lemma_real_mul(a, b); }
pub proof fn lemma_real_cross(ax: int, ay: int, bx: int, by: int)
    ensures xcross(ax as real, ay as real, bx as real, by as real) == (ax * by - ay * bx) as real
{
    lemma_real_mul(ax, by);
    lemma_real_mul(ay, bx);
}
pub proof fn lemma_mul_sign(a: int, b: int)
    ensures
        a > 0 && b > 0 ==> a * b > 0, a < 0 && b < 0 ==> a * b > 0,
        a < 0 && b > 0 ==> a * b < 0, a > 0 && b < 0 ==> a * b < 0,
        a == 0 || b == 0 ==> a * b == 0,
        (-a) * b == -(a * b), a * (-b) == -(a * b), a * b == b * a,
{
    assert((a > 0 && b > 0 ==> a * b > 0) && (a < 0 && b < 0 ==> a * b > 0) && (a < 0 && b > 0 ==> a * b < 0)
        && (a > 0 && b < 0 ==> a * b < 0) && (a == 0 || b == 0 ==> a * b == 0)
        && (-a) * b == -(a * b) && a * (-b) == -(a * b) && a * b == b * a) by(nonlinear_arith);
}
// |x|*|y| with its sign, bounded by m*m
pub proof fn lemma_mul_abs(x: int, y: int, m: int)
    requires -m <= x <= m, -m <= y <= m
    ensures
        x * y == if (x < 0) != (y < 0) { -(iabs(x) * iabs(y)) } else { iabs(x) * iabs(y) },
        0 <= iabs(x) * iabs(y) <= m * m,
        iabs(y) * iabs(x) == iabs(x) * iabs(y),
        (x != 0 && y != 0) ==> iabs(x) * iabs(y) > 0,
        (x == 0 || y == 0) ==> iabs(x) * iabs(y) == 0,
{
    lemma_mul_sign(x, y); lemma_mul_sign(x, -y); lemma_mul_sign(-x, y); lemma_mul_sign(iabs(x), iabs(y));
    let a = iabs(x); let b = iabs(y);
    assert(0 <= a * b <= m * m) by(nonlinear_arith) requires 0 <= a <= m, 0 <= b <= m;
}
// polynomial identities over the reals, built up from distributivity (the solver's own
// nonlinear procedure does not terminate on them as a whole)
pub proof fn rd(a: real, b: real, c: real)
    ensures a * (b - c) == a * b - a * c, (b - c) * a == a * b - a * c, a * (b + c) == a * b + a * c, (b + c) * a == a * b + a * c, a * b == b * a, a * c == c * a
{
    assert(a * (b - c) == a * b - a * c && (b - c) * a == a * b - a * c && a * (b + c) == a * b + a * c && (b + c) * a == a * b + a * c
        && a * b == b * a && a * c == c * a) by(nonlinear_arith);
}
pub proof fn rneg(a: real, b: real) ensures (-a) * b == -(a * b), a * (-b) == -(a * b), (-a) * (-b) == a * b, a * b == b * a, b * (-a) == -(a * b)
{ assert((-a) * b == -(a * b) && a * (-b) == -(a * b) && (-a) * (-b) == a * b && a * b == b * a && b * (-a) == -(a * b)) by(nonlinear_arith); }
pub proof fn rdd(a: real, b: real, c: real, d: real)
    ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d, a * c == c * a, a * d == d * a, b * c == c * b, b * d == d * b
{ rd(a - b, c, d); rd(c, a, b); rd(d, a, b); rd(a, c, d); rd(b, c, d); }
pub proof fn rm4(a: real, b: real, c: real, d: real)
    ensures (a * b) * (c * d) == (a * c) * (b * d), (a * b) * (c * d) == (a * d) * (b * c), (a * b) * (c * d) == (c * d) * (a * b)
{
    assert((a * b) * (c * d) == (a * c) * (b * d)) by(nonlinear_arith);
    assert((a * b) * (c * d) == (a * d) * (b * c)) by(nonlinear_arith);
    assert((a * b) * (c * d) == (c * d) * (a * b)) by(nonlinear_arith);
}
pub proof fn rmc(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
} // verus!
}
pub use lem::*;
