// Stand-ins for the arbitrary precision dependencies: opaque types whose operators carry
// the exact-arithmetic contract (trusted: num-bigint, num-rational are exact).
verus! {
pub mod dep_arb {
use super::*;
pub mod num_bigint { use super::*;
#[verifier::external_body] pub struct BigInt { x: Vec<u8> }
impl BigInt { pub uninterp spec fn val(&self) -> real;
  #[verifier::external_body] pub fn from_i8(n: i8) -> (r: Option<BigInt>) ensures r is Some, r->0.val() == n as int as real { unimplemented!() } }
}
pub mod num_rational { use super::*;
#[verifier::external_body] pub struct BigRational { x: Vec<u8> }
impl BigRational { pub uninterp spec fn val(&self) -> real;
  #[verifier::external_body] pub fn from_i8(n: i8) -> (r: Option<BigRational>) ensures r is Some, r->0.val() == n as int as real { unimplemented!() } }
}
pub use num_bigint::BigInt;
pub use num_rational::BigRational;
} // mod
pub use dep_arb::*;
} // verus!

verus! {
pub mod dep_BigInt { use super::*;
pub uninterp spec fn mk(r: real) -> BigInt;
// arithmetic of the type is exact
pub broadcast axiom fn mk_ax(r: real) ensures #[trigger] mk(r).val() == r;
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for BigInt {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: BigInt) -> bool { true }
  open spec fn add_spec(self, rhs: BigInt) -> BigInt { mk(self.val() + rhs.val()) }
}
impl Add<BigInt> for BigInt { type Output = BigInt;
  #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for BigInt {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: &BigInt) -> bool { true }
  open spec fn add_spec(self, rhs: &BigInt) -> BigInt { mk(self.val() + rhs.val()) }
}
impl Add<&BigInt> for BigInt { type Output = BigInt;
  #[verifier::external_body] fn add(self, rhs: &BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for &BigInt {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: BigInt) -> bool { true }
  open spec fn add_spec(self, rhs: BigInt) -> BigInt { mk(self.val() + rhs.val()) }
}
impl Add<BigInt> for &BigInt { type Output = BigInt;
  #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for &BigInt {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: &BigInt) -> bool { true }
  open spec fn add_spec(self, rhs: &BigInt) -> BigInt { mk(self.val() + rhs.val()) }
}
impl Add<&BigInt> for &BigInt { type Output = BigInt;
  #[verifier::external_body] fn add(self, rhs: &BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for BigInt {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: BigInt) -> bool { true }
  open spec fn sub_spec(self, rhs: BigInt) -> BigInt { mk(self.val() - rhs.val()) }
}
impl Sub<BigInt> for BigInt { type Output = BigInt;
  #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for BigInt {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: &BigInt) -> bool { true }
  open spec fn sub_spec(self, rhs: &BigInt) -> BigInt { mk(self.val() - rhs.val()) }
}
impl Sub<&BigInt> for BigInt { type Output = BigInt;
  #[verifier::external_body] fn sub(self, rhs: &BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for &BigInt {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: BigInt) -> bool { true }
  open spec fn sub_spec(self, rhs: BigInt) -> BigInt { mk(self.val() - rhs.val()) }
}
impl Sub<BigInt> for &BigInt { type Output = BigInt;
  #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for &BigInt {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: &BigInt) -> bool { true }
  open spec fn sub_spec(self, rhs: &BigInt) -> BigInt { mk(self.val() - rhs.val()) }
}
impl Sub<&BigInt> for &BigInt { type Output = BigInt;
  #[verifier::external_body] fn sub(self, rhs: &BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for BigInt {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: BigInt) -> bool { true }
  open spec fn mul_spec(self, rhs: BigInt) -> BigInt { mk(self.val() * rhs.val()) }
}
impl Mul<BigInt> for BigInt { type Output = BigInt;
  #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for BigInt {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: &BigInt) -> bool { true }
  open spec fn mul_spec(self, rhs: &BigInt) -> BigInt { mk(self.val() * rhs.val()) }
}
impl Mul<&BigInt> for BigInt { type Output = BigInt;
  #[verifier::external_body] fn mul(self, rhs: &BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for &BigInt {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: BigInt) -> bool { true }
  open spec fn mul_spec(self, rhs: BigInt) -> BigInt { mk(self.val() * rhs.val()) }
}
impl Mul<BigInt> for &BigInt { type Output = BigInt;
  #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for &BigInt {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: &BigInt) -> bool { true }
  open spec fn mul_spec(self, rhs: &BigInt) -> BigInt { mk(self.val() * rhs.val()) }
}
impl Mul<&BigInt> for &BigInt { type Output = BigInt;
  #[verifier::external_body] fn mul(self, rhs: &BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for BigInt {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> BigInt { mk(-self.val()) }
}
impl Neg for BigInt { type Output = BigInt;
  #[verifier::external_body] fn neg(self) -> BigInt { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigInt {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &BigInt) -> bool { self.val() == o.val() } }
impl PartialEq for BigInt { #[verifier::external_body] fn eq(&self, o: &BigInt) -> bool { unimplemented!() } }
impl Eq for BigInt {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigInt {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &BigInt) -> Option<Ordering> { Some(rcmp(self.val(), o.val())) } }
impl PartialOrd for BigInt { #[verifier::external_body] fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for BigInt {
  open spec fn obeys_cmp_spec() -> bool { true }
  open spec fn cmp_spec(&self, o: &BigInt) -> Ordering { rcmp(self.val(), o.val()) } }
impl Ord for BigInt { #[verifier::external_body] fn cmp(&self, o: &BigInt) -> Ordering { unimplemented!() } }
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: BigInt) ensures r.val() == self.val() { unimplemented!() } }
}
} // verus!

verus! {
pub mod dep_BigRational { use super::*;
pub uninterp spec fn mk(r: real) -> BigRational;
// arithmetic of the type is exact
pub broadcast axiom fn mk_ax(r: real) ensures #[trigger] mk(r).val() == r;
impl vstd::std_specs::ops::AddSpecImpl<BigRational> for BigRational {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: BigRational) -> bool { true }
  open spec fn add_spec(self, rhs: BigRational) -> BigRational { mk(self.val() + rhs.val()) }
}
impl Add<BigRational> for BigRational { type Output = BigRational;
  #[verifier::external_body] fn add(self, rhs: BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigRational> for BigRational {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: &BigRational) -> bool { true }
  open spec fn add_spec(self, rhs: &BigRational) -> BigRational { mk(self.val() + rhs.val()) }
}
impl Add<&BigRational> for BigRational { type Output = BigRational;
  #[verifier::external_body] fn add(self, rhs: &BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigRational> for &BigRational {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: BigRational) -> bool { true }
  open spec fn add_spec(self, rhs: BigRational) -> BigRational { mk(self.val() + rhs.val()) }
}
impl Add<BigRational> for &BigRational { type Output = BigRational;
  #[verifier::external_body] fn add(self, rhs: BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigRational> for &BigRational {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: &BigRational) -> bool { true }
  open spec fn add_spec(self, rhs: &BigRational) -> BigRational { mk(self.val() + rhs.val()) }
}
impl Add<&BigRational> for &BigRational { type Output = BigRational;
  #[verifier::external_body] fn add(self, rhs: &BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigRational> for BigRational {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: BigRational) -> bool { true }
  open spec fn sub_spec(self, rhs: BigRational) -> BigRational { mk(self.val() - rhs.val()) }
}
impl Sub<BigRational> for BigRational { type Output = BigRational;
  #[verifier::external_body] fn sub(self, rhs: BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigRational> for BigRational {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: &BigRational) -> bool { true }
  open spec fn sub_spec(self, rhs: &BigRational) -> BigRational { mk(self.val() - rhs.val()) }
}
impl Sub<&BigRational> for BigRational { type Output = BigRational;
  #[verifier::external_body] fn sub(self, rhs: &BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigRational> for &BigRational {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: BigRational) -> bool { true }
  open spec fn sub_spec(self, rhs: BigRational) -> BigRational { mk(self.val() - rhs.val()) }
}
impl Sub<BigRational> for &BigRational { type Output = BigRational;
  #[verifier::external_body] fn sub(self, rhs: BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigRational> for &BigRational {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: &BigRational) -> bool { true }
  open spec fn sub_spec(self, rhs: &BigRational) -> BigRational { mk(self.val() - rhs.val()) }
}
impl Sub<&BigRational> for &BigRational { type Output = BigRational;
  #[verifier::external_body] fn sub(self, rhs: &BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigRational> for BigRational {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: BigRational) -> bool { true }
  open spec fn mul_spec(self, rhs: BigRational) -> BigRational { mk(self.val() * rhs.val()) }
}
impl Mul<BigRational> for BigRational { type Output = BigRational;
  #[verifier::external_body] fn mul(self, rhs: BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigRational> for BigRational {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: &BigRational) -> bool { true }
  open spec fn mul_spec(self, rhs: &BigRational) -> BigRational { mk(self.val() * rhs.val()) }
}
impl Mul<&BigRational> for BigRational { type Output = BigRational;
  #[verifier::external_body] fn mul(self, rhs: &BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigRational> for &BigRational {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: BigRational) -> bool { true }
  open spec fn mul_spec(self, rhs: BigRational) -> BigRational { mk(self.val() * rhs.val()) }
}
impl Mul<BigRational> for &BigRational { type Output = BigRational;
  #[verifier::external_body] fn mul(self, rhs: BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigRational> for &BigRational {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: &BigRational) -> bool { true }
  open spec fn mul_spec(self, rhs: &BigRational) -> BigRational { mk(self.val() * rhs.val()) }
}
impl Mul<&BigRational> for &BigRational { type Output = BigRational;
  #[verifier::external_body] fn mul(self, rhs: &BigRational) -> BigRational { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for BigRational {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> BigRational { mk(-self.val()) }
}
impl Neg for BigRational { type Output = BigRational;
  #[verifier::external_body] fn neg(self) -> BigRational { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigRational {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &BigRational) -> bool { self.val() == o.val() } }
impl PartialEq for BigRational { #[verifier::external_body] fn eq(&self, o: &BigRational) -> bool { unimplemented!() } }
impl Eq for BigRational {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigRational {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &BigRational) -> Option<Ordering> { Some(rcmp(self.val(), o.val())) } }
impl PartialOrd for BigRational { #[verifier::external_body] fn partial_cmp(&self, o: &BigRational) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for BigRational {
  open spec fn obeys_cmp_spec() -> bool { true }
  open spec fn cmp_spec(&self, o: &BigRational) -> Ordering { rcmp(self.val(), o.val()) } }
impl Ord for BigRational { #[verifier::external_body] fn cmp(&self, o: &BigRational) -> Ordering { unimplemented!() } }
impl Clone for BigRational { #[verifier::external_body] fn clone(&self) -> (r: BigRational) ensures r.val() == self.val() { unimplemented!() } }
}
} // verus!
//@ foreach_macro src/lib.rs arbitrary_precision
verus! {
pub mod sc_$mod {
use super::*;
pub proof fn cross_shift(px: real, py: real, qx: real, qy: real, rx: real, ry: real)
    ensures (ry - qy) * (qx - px) - (qy - py) * (rx - qx) == xcross(qx - px, qy - py, rx - px, ry - py)
{
    assert((ry - qy) * (qx - px) - (qy - py) * (rx - qx) == (qx - px) * (ry - py) - (qy - py) * (rx - px)) by(nonlinear_arith);
}
broadcast use {dep_BigInt::mk_ax, dep_BigRational::mk_ax};
impl TotalOrd for $ty {
    open spec fn tcmp(&self, other: &Self) -> Ordering { rcmp(self.val(), other.val()) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) {}
//@ fn src/lib.rs#arbitrary_precision | TotalOrd for $ty | total_cmp | probe=no
//@ ret o
//@ end
}
impl PolygonScalar for $ty {
    open spec fn v(&self) -> real { self.val() }
    open spec fn ideal() -> bool { true }
    proof fn scalar_laws(a: Self, b: Self) { }
//@ fn src/lib.rs#arbitrary_precision | PolygonScalar for $ty | from_constant | probe=no
//@ ret r
//@ end
//@ fn src/lib.rs#arbitrary_precision | PolygonScalar for $ty | cmp_dist | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs#arbitrary_precision | PolygonScalar for $ty | cmp_slope | probe=no
//@ ret o
//@ top
        proof { cross_shift(p[0].v(), p[1].v(), q[0].v(), q[1].v(), r[0].v(), r[1].v()); }
//@ end
//@ fn src/lib.rs#arbitrary_precision | PolygonScalar for $ty | cmp_vector_slope | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs#arbitrary_precision | PolygonScalar for $ty | cmp_perp_vector_slope | probe=no
//@ ret o
//@ end
}
}
} // verus!
//@ endforeach
