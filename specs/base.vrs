// Shared vocabulary: orders, the scalar contract, exact arithmetic lemmas.
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use std::cmp::Ordering;
#[allow(unused_imports)] use std::ops::{Add, Sub, Mul, Div, Neg, BitXor, Bound};
#[allow(unused_imports)] use vstd::std_specs::ops::*;
#[allow(unused_imports)] use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;

pub open spec fn rcmp(a: real, b: real) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn icmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn orev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }

// Contract of the total order used everywhere (rgeometry's TotalOrd).
pub trait TotalOrd {
    spec fn tcmp(&self, other: &Self) -> Ordering;
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self)
        ensures
            a.tcmp(a) == Ordering::Equal,
            b.tcmp(a) == orev(a.tcmp(b)),
            a.tcmp(b) != Ordering::Greater && b.tcmp(c) != Ordering::Greater ==> a.tcmp(c) != Ordering::Greater,
            a.tcmp(b) == Ordering::Less && b.tcmp(c) != Ordering::Greater ==> a.tcmp(c) == Ordering::Less,
            a.tcmp(b) != Ordering::Greater && b.tcmp(c) == Ordering::Less ==> a.tcmp(c) == Ordering::Less;
    fn total_cmp(&self, other: &Self) -> (o: Ordering)
        ensures o == self.tcmp(other);
//@ fn src/lib.rs | trait TotalOrd | total_min
//@ ret r
//@ spec
    ensures r == if self.tcmp(&other) == Ordering::Greater { other } else { self }
//@ end
//@ fn src/lib.rs | trait TotalOrd | total_max
//@ ret r
//@ spec
    ensures r == if self.tcmp(&other) == Ordering::Greater { self } else { other }
//@ end
}

pub open spec fn xcross(ax: real, ay: real, bx: real, by: real) -> real { ax * by - ay * bx }
pub open spec fn xdot(ax: real, ay: real, bx: real, by: real) -> real { ax * bx + ay * by }
pub open spec fn xdist2(ax: real, ay: real, bx: real, by: real) -> real {
    (ax - bx) * (ax - bx) + (ay - by) * (ay - by)
}

// Contract of a coordinate type (rgeometry's PolygonScalar).  `v` is the exact value.
pub trait PolygonScalar: TotalOrd + Sized + Clone + PartialOrd + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Neg<Output = Self> {
    spec fn v(&self) -> real;
    // true when + - * of the type are exact (arbitrary precision); fixed-width and floating types are false
    spec fn ideal() -> bool;
    fn from_constant(val: i8) -> (r: Self)
        ensures r.v() == val as int as real;
    fn cmp_dist(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> (o: std::cmp::Ordering)
        ensures o == rcmp(xdist2(p[0].v(), p[1].v(), q[0].v(), q[1].v()), xdist2(p[0].v(), p[1].v(), r[0].v(), r[1].v()));
    fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> (o: std::cmp::Ordering)
        ensures o == rcmp(xcross(q[0].v() - p[0].v(), q[1].v() - p[1].v(), r[0].v() - p[0].v(), r[1].v() - p[1].v()), 0real);
    fn cmp_vector_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> (o: std::cmp::Ordering)
        ensures o == rcmp(xcross(p[0].v(), p[1].v(), r[0].v() - q[0].v(), r[1].v() - q[1].v()), 0real);
    fn cmp_perp_vector_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> (o: std::cmp::Ordering)
        ensures o == rcmp(xcross(-p[1].v(), p[0].v(), r[0].v() - q[0].v(), r[1].v() - q[1].v()), 0real);
    proof fn scalar_laws(a: Self, b: Self)
        ensures
            (&a).tcmp(&b) == rcmp(a.v(), b.v()),
            cloned(a, b) ==> a.v() == b.v(),
            <Self as PartialOrdSpec>::obeys_partial_cmp_spec(),
            a.partial_cmp_spec(&b) == Some(rcmp(a.v(), b.v())),
            Self::ideal() ==> {
                &&& <Self as AddSpec>::obeys_add_spec() && a.add_req(b) && a.add_spec(b).v() == a.v() + b.v()
                &&& <Self as SubSpec>::obeys_sub_spec() && a.sub_req(b) && a.sub_spec(b).v() == a.v() - b.v()
                &&& <Self as MulSpec>::obeys_mul_spec() && a.mul_req(b) && a.mul_spec(b).v() == a.v() * b.v()
                &&& <Self as NegSpec>::obeys_neg_spec() && a.neg_req() && a.neg_spec().v() == -a.v()
            };
}
} // verus!
