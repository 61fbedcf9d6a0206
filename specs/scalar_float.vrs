// Floating point coordinates: the wrappers are verified against trusted contracts of the two
// dependencies they delegate to: orient2d (adaptive exact predicate) and float -> rational.
verus! {
pub mod dep_float {
use super::*;
pub uninterp spec fn f32val(f: f32) -> real;
pub uninterp spec fn f64val(f: f64) -> real;
pub trait FVal: Sized { spec fn fv(self) -> real; }
impl FVal for f32 { open spec fn fv(self) -> real { f32val(self) } }
impl FVal for f64 { open spec fn fv(self) -> real { f64val(self) } }
pub uninterp spec fn ftotal<F>(a: F, b: F) -> Ordering;
pub broadcast axiom fn ax_widen(x: f32, y: f64)
    requires #[trigger] vstd::float::float_cast_spec::<f32, f64>(x, y) ensures f64val(y) == f32val(x);
pub broadcast axiom fn ax_gt(x: f64, y: f64, b: bool)
    requires #[trigger] vstd::std_specs::cmp::gt_ensures::<f64>(x, y, b) ensures b == (f64val(x) > f64val(y));
pub broadcast axiom fn ax_lt(x: f64, y: f64, b: bool)
    requires #[trigger] vstd::std_specs::cmp::lt_ensures::<f64>(x, y, b) ensures b == (f64val(x) < f64val(y));
pub axiom fn ax_zero() ensures f64val(0.0f64) == 0real;
pub mod geometry_predicates { pub mod predicates { use super::super::*;
#[verifier::external_body]
pub fn orient2d(pa: [f64; 2], pb: [f64; 2], pc: [f64; 2]) -> (r: f64)
    ensures rcmp(f64val(r), 0real) == rcmp(xcross(f64val(pb[0]) - f64val(pa[0]), f64val(pb[1]) - f64val(pa[1]), f64val(pc[0]) - f64val(pa[0]), f64val(pc[1]) - f64val(pa[1])), 0real)
{ unimplemented!() }
} }
#[verifier::external_body]
pub fn float_to_rational<F: FVal>(f: F) -> (r: BigRational) ensures r.v() == f.fv() { unimplemented!() }
pub mod ordered_float { use super::*;

pub struct OrderedFloat<T>(pub T);
impl<T: Copy> Copy for OrderedFloat<T> {}
impl<T: Copy> Clone for OrderedFloat<T> { fn clone(&self) -> (r: Self) ensures r == *self { OrderedFloat(self.0) } }
impl<T> OrderedFloat<T> { pub fn into_inner(self) -> (r: T) ensures r == self.0 { self.0 } }
impl<T: FVal> vstd::std_specs::cmp::PartialEqSpecImpl for OrderedFloat<T> {
  open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0.fv() == o.0.fv() } }
impl<T: FVal> PartialEq for OrderedFloat<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: FVal> Eq for OrderedFloat<T> {}
impl<T: FVal> vstd::std_specs::cmp::PartialOrdSpecImpl for OrderedFloat<T> {
  open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(rcmp(self.0.fv(), o.0.fv())) } }
impl<T: FVal> PartialOrd for OrderedFloat<T> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl<T: FVal> vstd::std_specs::cmp::OrdSpecImpl for OrderedFloat<T> {
  open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { rcmp(self.0.fv(), o.0.fv()) } }
impl<T: FVal> Ord for OrderedFloat<T> { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl<T: FVal> OrderedFloat<T> {
  #[verifier::external_body] pub fn from_i8(n: i8) -> (r: Option<Self>) ensures r is Some, (r->0).0.fv() == n as int as real { unimplemented!() } }
impl<T> Add<OrderedFloat<T>> for OrderedFloat<T> { type Output = OrderedFloat<T>; #[verifier::external_body] fn add(self, rhs: OrderedFloat<T>) -> OrderedFloat<T> { unimplemented!() } }
impl<T> Sub<OrderedFloat<T>> for OrderedFloat<T> { type Output = OrderedFloat<T>; #[verifier::external_body] fn sub(self, rhs: OrderedFloat<T>) -> OrderedFloat<T> { unimplemented!() } }
impl<T> Mul<OrderedFloat<T>> for OrderedFloat<T> { type Output = OrderedFloat<T>; #[verifier::external_body] fn mul(self, rhs: OrderedFloat<T>) -> OrderedFloat<T> { unimplemented!() } }
impl<T> Neg for OrderedFloat<T> { type Output = OrderedFloat<T>; #[verifier::external_body] fn neg(self) -> OrderedFloat<T> { unimplemented!() } }

pub struct NotNan<T>(pub T);
impl<T: Copy> Copy for NotNan<T> {}
impl<T: Copy> Clone for NotNan<T> { fn clone(&self) -> (r: Self) ensures r == *self { NotNan(self.0) } }
impl<T> NotNan<T> { pub fn into_inner(self) -> (r: T) ensures r == self.0 { self.0 } }
impl<T: FVal> vstd::std_specs::cmp::PartialEqSpecImpl for NotNan<T> {
  open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0.fv() == o.0.fv() } }
impl<T: FVal> PartialEq for NotNan<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: FVal> Eq for NotNan<T> {}
impl<T: FVal> vstd::std_specs::cmp::PartialOrdSpecImpl for NotNan<T> {
  open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(rcmp(self.0.fv(), o.0.fv())) } }
impl<T: FVal> PartialOrd for NotNan<T> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl<T: FVal> vstd::std_specs::cmp::OrdSpecImpl for NotNan<T> {
  open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { rcmp(self.0.fv(), o.0.fv()) } }
impl<T: FVal> Ord for NotNan<T> { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl<T: FVal> NotNan<T> {
  #[verifier::external_body] pub fn from_i8(n: i8) -> (r: Option<Self>) ensures r is Some, (r->0).0.fv() == n as int as real { unimplemented!() } }
impl<T> Add<NotNan<T>> for NotNan<T> { type Output = NotNan<T>; #[verifier::external_body] fn add(self, rhs: NotNan<T>) -> NotNan<T> { unimplemented!() } }
impl<T> Sub<NotNan<T>> for NotNan<T> { type Output = NotNan<T>; #[verifier::external_body] fn sub(self, rhs: NotNan<T>) -> NotNan<T> { unimplemented!() } }
impl<T> Mul<NotNan<T>> for NotNan<T> { type Output = NotNan<T>; #[verifier::external_body] fn mul(self, rhs: NotNan<T>) -> NotNan<T> { unimplemented!() } }
impl<T> Neg for NotNan<T> { type Output = NotNan<T>; #[verifier::external_body] fn neg(self) -> NotNan<T> { unimplemented!() } }
} // ordered_float
pub trait FromI8: FVal { fn from_i8(n: i8) -> (r: Option<Self>) ensures r is Some, r->0.fv() == n as int as real; }
impl FromI8 for f32 { #[verifier::external_body] fn from_i8(n: i8) -> (r: Option<Self>) { unimplemented!() } }
impl FromI8 for f64 { #[verifier::external_body] fn from_i8(n: i8) -> (r: Option<Self>) { unimplemented!() } }
pub assume_specification [ <f32>::total_cmp ] (a: &f32, b: &f32) -> (o: Ordering) ensures o == ftotal(*a, *b);
pub assume_specification [ <f64>::total_cmp ] (a: &f64, b: &f64) -> (o: Ordering) ensures o == ftotal(*a, *b);
// std's total order on floats is a total order; it refines the numeric order except for -0.0 / NaN
pub axiom fn ftotal_laws<F: FVal>(a: F, b: F, c: F)
    ensures
        ftotal(a, a) == Ordering::Equal, ftotal(b, a) == orev(ftotal(a, b)),
        ftotal(a, b) != Ordering::Greater && ftotal(b, c) != Ordering::Greater ==> ftotal(a, c) != Ordering::Greater,
        ftotal(a, b) == Ordering::Less && ftotal(b, c) != Ordering::Greater ==> ftotal(a, c) == Ordering::Less,
        ftotal(a, b) != Ordering::Greater && ftotal(b, c) == Ordering::Less ==> ftotal(a, c) == Ordering::Less;
}
pub use dep_float::*;
}

//@ foreach_macro src/lib.rs wrapped_floating_precision
verus! {
pub mod sc_$mod {
use super::*;
broadcast use {ax_widen, ax_gt, ax_lt};
impl TotalOrd for $ty {
    open spec fn tcmp(&self, other: &Self) -> Ordering { rcmp(self.0.fv(), other.0.fv()) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) {}
//@ fn src/lib.rs#wrapped_floating_precision | TotalOrd for $ty | total_cmp | probe=no
//@ ret o
//@ end
}
impl PolygonScalar for $ty {
    open spec fn v(&self) -> real { self.0.fv() }
    open spec fn ideal() -> bool { false }
    proof fn scalar_laws(a: Self, b: Self) { }
    
//@ fn src/lib.rs#wrapped_floating_precision | PolygonScalar for $ty | from_constant | probe=no
//@ ret r
//@ end
//@ fn src/lib.rs#wrapped_floating_precision | PolygonScalar for $ty | cmp_dist | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs#wrapped_floating_precision | PolygonScalar for $ty | cmp_slope | probe=no
//@ ret o
//@ top
        proof { ax_zero(); }
//@ end
//@ fn src/lib.rs#wrapped_floating_precision | PolygonScalar for $ty | cmp_vector_slope | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs#wrapped_floating_precision | PolygonScalar for $ty | cmp_perp_vector_slope | probe=no
//@ ret o
//@ end
}
}
} // verus!
//@ endforeach

//@ foreach_macro src/lib.rs floating_precision
verus! {
pub mod sc_$mod {
use super::*;
broadcast use {ax_widen, ax_gt, ax_lt};
impl TotalOrd for $ty {
    open spec fn tcmp(&self, other: &Self) -> Ordering { ftotal(*self, *other) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) { ftotal_laws(*a, *b, *c); ftotal_laws(*b, *a, *c); }
//@ fn src/lib.rs#floating_precision | TotalOrd for $ty | total_cmp | probe=no
//@ ret o
//@ end
}
impl PolygonScalar for $ty {
    open spec fn v(&self) -> real { self.fv() }
    open spec fn ideal() -> bool { false }
    // ASSUMED: no NaN and no negative zero among the coordinates
    proof fn scalar_laws(a: Self, b: Self) { admit(); }
//@ fn src/lib.rs#floating_precision | PolygonScalar for $ty | from_constant | probe=no
//@ ret r
//@ end
//@ fn src/lib.rs#floating_precision | PolygonScalar for $ty | cmp_dist | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs#floating_precision | PolygonScalar for $ty | cmp_slope | probe=no
//@ ret o
//@ top
        proof { ax_zero(); }
//@ end
//@ fn src/lib.rs#floating_precision | PolygonScalar for $ty | cmp_vector_slope | probe=no
//@ ret o
//@ end
//@ fn src/lib.rs#floating_precision | PolygonScalar for $ty | cmp_perp_vector_slope | probe=no
//@ ret o
//@ end
}
}
} // verus!
//@ endforeach
