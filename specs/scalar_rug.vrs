// rug::Integer (feature `rug`): same contract, stand-in type with exact operators.
verus! {
pub mod rug { use super::*;
pub type Integer = IntegerS;
#[verifier::external_body] pub struct IntegerS { x: Vec<u8> }
impl IntegerS {
  pub uninterp spec fn val(&self) -> real;
  #[verifier::external_body] pub fn square(self) -> (r: IntegerS) ensures r.val() == self.val() * self.val() { unimplemented!() }
}
// rug's lazily evaluated `&a + &b` is read as the value it evaluates to
pub trait IntoInteger: Sized { spec fn ival(self) -> real; }
impl IntoInteger for IntegerS { open spec fn ival(self) -> real { self.val() } }
impl IntoInteger for i8 { open spec fn ival(self) -> real { self as int as real } }
impl IntegerS { #[verifier::external_body] pub fn from<X: IntoInteger>(x: X) -> (r: IntegerS) ensures r.val() == x.ival() { unimplemented!() } }
pub uninterp spec fn mk(r: real) -> IntegerS;
pub broadcast axiom fn mk_ax(r: real) ensures #[trigger] mk(r).val() == r;
impl vstd::std_specs::ops::AddSpecImpl<IntegerS> for IntegerS {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: IntegerS) -> bool { true }
  open spec fn add_spec(self, rhs: IntegerS) -> IntegerS { mk(self.val() + rhs.val()) }
}
impl Add<IntegerS> for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn add(self, rhs: IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&IntegerS> for IntegerS {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: &IntegerS) -> bool { true }
  open spec fn add_spec(self, rhs: &IntegerS) -> IntegerS { mk(self.val() + rhs.val()) }
}
impl Add<&IntegerS> for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn add(self, rhs: &IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<IntegerS> for &IntegerS {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: IntegerS) -> bool { true }
  open spec fn add_spec(self, rhs: IntegerS) -> IntegerS { mk(self.val() + rhs.val()) }
}
impl Add<IntegerS> for &IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn add(self, rhs: IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&IntegerS> for &IntegerS {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: &IntegerS) -> bool { true }
  open spec fn add_spec(self, rhs: &IntegerS) -> IntegerS { mk(self.val() + rhs.val()) }
}
impl Add<&IntegerS> for &IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn add(self, rhs: &IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<IntegerS> for IntegerS {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: IntegerS) -> bool { true }
  open spec fn sub_spec(self, rhs: IntegerS) -> IntegerS { mk(self.val() - rhs.val()) }
}
impl Sub<IntegerS> for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn sub(self, rhs: IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&IntegerS> for IntegerS {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: &IntegerS) -> bool { true }
  open spec fn sub_spec(self, rhs: &IntegerS) -> IntegerS { mk(self.val() - rhs.val()) }
}
impl Sub<&IntegerS> for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn sub(self, rhs: &IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<IntegerS> for &IntegerS {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: IntegerS) -> bool { true }
  open spec fn sub_spec(self, rhs: IntegerS) -> IntegerS { mk(self.val() - rhs.val()) }
}
impl Sub<IntegerS> for &IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn sub(self, rhs: IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&IntegerS> for &IntegerS {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: &IntegerS) -> bool { true }
  open spec fn sub_spec(self, rhs: &IntegerS) -> IntegerS { mk(self.val() - rhs.val()) }
}
impl Sub<&IntegerS> for &IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn sub(self, rhs: &IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<IntegerS> for IntegerS {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: IntegerS) -> bool { true }
  open spec fn mul_spec(self, rhs: IntegerS) -> IntegerS { mk(self.val() * rhs.val()) }
}
impl Mul<IntegerS> for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn mul(self, rhs: IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&IntegerS> for IntegerS {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: &IntegerS) -> bool { true }
  open spec fn mul_spec(self, rhs: &IntegerS) -> IntegerS { mk(self.val() * rhs.val()) }
}
impl Mul<&IntegerS> for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn mul(self, rhs: &IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<IntegerS> for &IntegerS {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: IntegerS) -> bool { true }
  open spec fn mul_spec(self, rhs: IntegerS) -> IntegerS { mk(self.val() * rhs.val()) }
}
impl Mul<IntegerS> for &IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn mul(self, rhs: IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&IntegerS> for &IntegerS {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: &IntegerS) -> bool { true }
  open spec fn mul_spec(self, rhs: &IntegerS) -> IntegerS { mk(self.val() * rhs.val()) }
}
impl Mul<&IntegerS> for &IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn mul(self, rhs: &IntegerS) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for IntegerS {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> IntegerS { mk(-self.val()) }
}
impl Neg for IntegerS { type Output = IntegerS;
  #[verifier::external_body] fn neg(self) -> IntegerS { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IntegerS {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &IntegerS) -> bool { self.val() == o.val() } }
impl PartialEq for IntegerS { #[verifier::external_body] fn eq(&self, o: &IntegerS) -> bool { unimplemented!() } }
impl Eq for IntegerS {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for IntegerS {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &IntegerS) -> Option<Ordering> { Some(rcmp(self.val(), o.val())) } }
impl PartialOrd for IntegerS { #[verifier::external_body] fn partial_cmp(&self, o: &IntegerS) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for IntegerS {
  open spec fn obeys_cmp_spec() -> bool { true }
  open spec fn cmp_spec(&self, o: &IntegerS) -> Ordering { rcmp(self.val(), o.val()) } }
impl Ord for IntegerS { #[verifier::external_body] fn cmp(&self, o: &IntegerS) -> Ordering { unimplemented!() } }
impl Clone for IntegerS { #[verifier::external_body] fn clone(&self) -> (r: IntegerS) ensures r == *self { unimplemented!() } }

pub proof fn cross_shift(px: real, py: real, qx: real, qy: real, rx: real, ry: real)
    ensures (ry - qy) * (qx - px) - (qy - py) * (rx - qx) == xcross(qx - px, qy - py, rx - px, ry - py)
{
    assert((ry - qy) * (qx - px) - (qy - py) * (rx - qx) == (qx - px) * (ry - py) - (qy - py) * (rx - px)) by(nonlinear_arith);
}
}
pub mod sc_rug {
use super::*;
broadcast use rug::mk_ax;
impl TotalOrd for rug::Integer {
    open spec fn tcmp(&self, other: &Self) -> Ordering { rcmp(self.val(), other.val()) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) {}
//@ fn src/lib.rs | TotalOrd for rug::Integer | total_cmp | probe=no
//@ ret o
//@ end
}
impl PolygonScalar for rug::Integer {
    open spec fn v(&self) -> real { self.val() }
    open spec fn ideal() -> bool { true }
    proof fn scalar_laws(a: Self, b: Self) { }
//@ fn src/lib.rs | PolygonScalar for rug::Integer | from_constant | probe=no
//@ ret r
//@ end
//@ fn src/lib.rs | PolygonScalar for rug::Integer | cmp_dist | probe=no
//@ ret o
//@ rewrite? let [qx, qy] = q.clone(); =>> let (qx, qy) = (q[0].clone(), q[1].clone());
//@ rewrite? let [px, py] = p.clone(); =>> let (px, py) = (p[0].clone(), p[1].clone());
//@ rewrite? let [rx, ry] = r.clone(); =>> let (rx, ry) = (r[0].clone(), r[1].clone());
//@ end
//@ fn src/lib.rs | PolygonScalar for rug::Integer | cmp_slope | probe=no
//@ ret o
//@ rewrite? let [qx, qy] = q.clone(); =>> let (qx, qy) = (q[0].clone(), q[1].clone());
//@ rewrite? let [rx, ry] = r.clone(); =>> let (rx, ry) = (r[0].clone(), r[1].clone());
//@ top
        proof { rug::cross_shift(p[0].v(), p[1].v(), q[0].v(), q[1].v(), r[0].v(), r[1].v()); }
//@ end
//@ fn src/lib.rs | PolygonScalar for rug::Integer | cmp_vector_slope | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs | PolygonScalar for rug::Integer | cmp_perp_vector_slope | probe=no
//@ ret o
//@ end
}
}
} // verus!
