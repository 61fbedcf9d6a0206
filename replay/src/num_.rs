#![allow(unused_imports, dead_code)]
//! Exact arithmetic oracles.
pub use num_bigint::BigInt;
pub use num_rational::BigRational;
pub use num_traits::{One, Signed, ToPrimitive, Zero};
pub use std::cmp::Ordering;
pub type Q = BigRational;
pub type QP = [Q; 2];
pub fn q(i: i64) -> Q { Q::from_integer(BigInt::from(i)) }
pub fn qp(p: [i64; 2]) -> QP { [q(p[0]), q(p[1])] }
pub fn qsub(a: &QP, b: &QP) -> QP { [&a[0] - &b[0], &a[1] - &b[1]] }
pub fn qcross(a: &QP, b: &QP) -> Q { &a[0] * &b[1] - &a[1] * &b[0] }
pub fn qdot(a: &QP, b: &QP) -> Q { &a[0] * &b[0] + &a[1] * &b[1] }
pub fn qcross3(a: &QP, b: &QP, c: &QP) -> Q { qcross(&qsub(b, a), &qsub(c, a)) }
pub fn qdist2(a: &QP, b: &QP) -> Q { let d = qsub(a, b); qdot(&d, &d) }
pub fn sgn(x: &Q) -> Ordering { x.cmp(&Q::zero()) }

// small integers: exact in i128
pub type IP = [i64; 2];
pub fn cross(a: [i128; 2], b: [i128; 2]) -> i128 { a[0] * b[1] - a[1] * b[0] }
pub fn w(p: IP) -> [i128; 2] { [p[0] as i128, p[1] as i128] }
pub fn sub(a: IP, b: IP) -> [i128; 2] { [a[0] as i128 - b[0] as i128, a[1] as i128 - b[1] as i128] }
pub fn cross3(a: IP, b: IP, c: IP) -> i128 { cross(sub(b, a), sub(c, a)) }
pub fn dot(a: [i128; 2], b: [i128; 2]) -> i128 { a[0] * b[0] + a[1] * b[1] }
pub fn dist2(a: IP, b: IP) -> i128 { let d = sub(a, b); dot(d, d) }
