// The point where two lines meet, for number types whose operators are exact.
use vstd::std_specs::ops::DivSpec;
verus! {
// a field of exact numbers (rationals): division is exact, equality is equality of the values
pub trait ExactField: PolygonScalar + Div<Self, Output = Self> {
    proof fn field_laws(a: Self, b: Self)
        ensures
            Self::ideal(),
            <Self as PartialEqSpec>::obeys_eq_spec(), a.eq_spec(&b) == (a.v() == b.v()),
            <Self as DivSpec>::obeys_div_spec(),
            b.v() != 0real ==> a.div_req(b) && a.div_spec(b).v() == a.v() / b.v();
}
pub proof fn field<T: ExactField>()
    ensures
        <T as AddSpec>::obeys_add_spec(), <T as SubSpec>::obeys_sub_spec(), <T as MulSpec>::obeys_mul_spec(), <T as DivSpec>::obeys_div_spec(), <T as PartialEqSpec>::obeys_eq_spec(),
        forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a.v() == b.v(),
        forall|a: T, b: T| #[trigger] cloned(a, b) ==> a.v() == b.v(),
        forall|a: T, b: T| #[trigger] a.add_req(b), forall|a: T, b: T| #[trigger] a.sub_req(b), forall|a: T, b: T| #[trigger] a.mul_req(b),
        forall|a: T, b: T| #[trigger] a.add_spec(b).v() == a.v() + b.v(),
        forall|a: T, b: T| #[trigger] a.sub_spec(b).v() == a.v() - b.v(),
        forall|a: T, b: T| #[trigger] a.mul_spec(b).v() == a.v() * b.v(),
        forall|a: T, b: T| b.v() != 0real ==> #[trigger] a.div_req(b),
        forall|a: T, b: T| b.v() != 0real ==> #[trigger] a.div_spec(b).v() == a.v() / b.v(),
        forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.v() == b.v()),
{
    assert forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) implies a.v() == b.v() by { T::scalar_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] cloned(a, b) implies a.v() == b.v() by { T::scalar_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.add_req(b) by { T::scalar_laws(a, b); T::field_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.sub_req(b) by { T::scalar_laws(a, b); T::field_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.mul_req(b) by { T::scalar_laws(a, b); T::field_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.add_spec(b).v() == a.v() + b.v() by { T::scalar_laws(a, b); T::field_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.sub_spec(b).v() == a.v() - b.v() by { T::scalar_laws(a, b); T::field_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.mul_spec(b).v() == a.v() * b.v() by { T::scalar_laws(a, b); T::field_laws(a, b); }
    assert forall|a: T, b: T| b.v() != 0real implies #[trigger] a.div_req(b) by { T::field_laws(a, b); }
    assert forall|a: T, b: T| b.v() != 0real implies #[trigger] a.div_spec(b).v() == a.v() / b.v() by { T::field_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.v() == b.v()) by { T::field_laws(a, b); }
    let c: T = arbitrary(); T::scalar_laws(c, c); T::field_laws(c, c);
}
// the second point the line is given by
pub open spec fn via<T: PolygonScalar>(l: Line<'_, T, 2>) -> P2 { pxy(*(l.direction->Through_0)) }
// q is on the (infinite) line through a and b
pub open spec fn on_line(a: P2, b: P2, q: P2) -> bool { cross3(a, b, q) == 0real }
proof fn side_of(a: P2, b: P2, x: real, y: real) ensures cross3(a, b, (x, y)) == (a.1 - b.1) * x - (a.0 - b.0) * y + (a.0 * b.1 - a.1 * b.0)
{
    rdif(b.0, a.0, y, a.1); rdif(b.1, a.1, x, a.0);
    rd(x, a.1, b.1); rd(y, a.0, b.0); rmc(a.1, x); rmc(b.1, x); rmc(a.0, y); rmc(b.0, y); rmc(a.0, a.1); rmc(b.0, a.1); rmc(b.1, a.0);
}
proof fn rdif(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d { rd(c - d, a, b); rd(a, c, d); rd(b, c, d); rmc(a, c - d); rmc(b, c - d); }
proof fn cancel(dx: real, dy: real, ex: real, ey: real, p: real, q: real)
    ensures
        dy * (p * ex - dx * q) - dx * (p * ey - dy * q) + p * (dx * ey - dy * ex) == 0real,
        ey * (p * ex - dx * q) - ex * (p * ey - dy * q) + q * (dx * ey - dy * ex) == 0real,
{
    rd(dy, p * ex, dx * q); rd(dx, p * ey, dy * q); rd(p, dx * ey, dy * ex);
    turn3(dy, p, ex); turn3(dx, p, ey); turn3(dy, dx, q);
    rd(ey, p * ex, dx * q); rd(ex, p * ey, dy * q); rd(q, dx * ey, dy * ex);
    turn3(ey, p, ex); turn3(ex, p, ey); turn3(p, ey, ex); rmc(ex, ey);
    turn3(ey, dx, q); turn3(ex, dy, q); turn3(q, dx, ey); turn3(q, dy, ex); rmc(ey, q); rmc(ex, q);
}
proof fn turn3(a: real, b: real, c: real) ensures a * (b * c) == b * (a * c), a * (b * c) == a * (c * b) { assert(a * (b * c) == b * (a * c) && a * (b * c) == a * (c * b)) by(nonlinear_arith); }
proof fn unscale(dx: real, dy: real, p: real, x: real, y: real, den: real) ensures (dy * x - dx * y + p) * den == dy * (x * den) - dx * (y * den) + p * den
{
    rd(den, dy * x - dx * y, p); rd(den, dy * x, dx * y); rmc(dy * x - dx * y, den); rmc(p, den); rmc(dy * x, den); rmc(dx * y, den);
    rmc((dy * x - dx * y + p), den);
    assert((dy * x) * den == dy * (x * den) && (dx * y) * den == dx * (y * den)) by { assoc(dy, x, den); assoc(dx, y, den); }
}
proof fn assoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
proof fn nil(u: real, den: real) requires u * den == 0real, den != 0real ensures u == 0real { assert(u == 0real) by(nonlinear_arith) requires u * den == 0real, den != 0real; }
pub proof fn on_first(a: P2, b: P2, c: P2, d: P2, x: real, y: real, den: real)
    requires
        den != 0real, den == (a.0 - b.0) * (c.1 - d.1) - (a.1 - b.1) * (c.0 - d.0),
        x * den == (a.0 * b.1 - a.1 * b.0) * (c.0 - d.0) - (a.0 - b.0) * (c.0 * d.1 - c.1 * d.0),
        y * den == (a.0 * b.1 - a.1 * b.0) * (c.1 - d.1) - (a.1 - b.1) * (c.0 * d.1 - c.1 * d.0),
    ensures on_line(a, b, (x, y)), on_line(c, d, (x, y))
{
    hide(cross3);
    let (dx, dy, ex, ey) = (a.0 - b.0, a.1 - b.1, c.0 - d.0, c.1 - d.1);
    let (p, q) = (a.0 * b.1 - a.1 * b.0, c.0 * d.1 - c.1 * d.0);
    side_of(a, b, x, y); side_of(c, d, x, y);
    unscale(dx, dy, p, x, y, den); unscale(ex, ey, q, x, y, den);
    cancel(dx, dy, ex, ey, p, q);
    nil(cross3(a, b, (x, y)), den); nil(cross3(c, d, (x, y)), den);
}
proof fn den_is(a: P2, b: P2, c: P2, d: P2) ensures cross2(psub(b, a), psub(d, c)) == (a.0 - b.0) * (c.1 - d.1) - (a.1 - b.1) * (c.0 - d.0)
{ assert((b.0 - a.0) * (d.1 - c.1) - (b.1 - a.1) * (d.0 - c.0) == (a.0 - b.0) * (c.1 - d.1) - (a.1 - b.1) * (c.0 - d.0)) by(nonlinear_arith); }
pub proof fn quot(n: real, den: real) requires den != 0real ensures (n / den) * den == n { assert((n / den) * den == n) by(nonlinear_arith) requires den != 0real; }
// destructuring an array by value
#[verifier::external_body]
fn split2<T>(a: [T; 2]) -> (r: (T, T)) ensures r.0 == a@[0], r.1 == a@[1] { unimplemented!() }
impl<'a, T: ExactField> Line<'a, T, 2> {
//@ fn src/data/line.rs | impl Line<'_, T> | intersection_point
//@ ret r
//@ spec
    requires self.direction is Through, other.direction is Through
    ensures match r {
        None => cross2(psub(via(*self), pxy(*self.origin)), psub(via(*other), pxy(*other.origin))) == 0real,
        Some(p) => on_line(pxy(*self.origin), via(*self), pxy(p)) && on_line(pxy(*other.origin), via(*other), pxy(p))
            && cross2(psub(via(*self), pxy(*self.origin)), psub(via(*other), pxy(*other.origin))) != 0real,
    }
//@ rewrite? let [..] =>> split2
//@ top
    hide(cross2);
    proof { field::<T>(); den_is(pxy(*self.origin), via(*self), pxy(*other.origin), via(*other)); }
//@ tail res
    proof {
        let (a, b, c, d) = (pxy(*self.origin), via(*self), pxy(*other.origin), via(*other));
        let den = (a.0 - b.0) * (c.1 - d.1) - (a.1 - b.1) * (c.0 - d.0);
        if res is Some {
            let p = pxy(res->Some_0);
            let xn = (a.0 * b.1 - a.1 * b.0) * (c.0 - d.0) - (a.0 - b.0) * (c.0 * d.1 - c.1 * d.0);
            let yn = (a.0 * b.1 - a.1 * b.0) * (c.1 - d.1) - (a.1 - b.1) * (c.0 * d.1 - c.1 * d.0);
            quot(xn, den); quot(yn, den);
            on_first(a, b, c, d, p.0, p.1, den);
        }
    }
//@ end
}
//@ item src/data/directed_edge.rs | DirectedEdge_ | fields=pub
impl<'a, T: TotalOrd, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a DirectedEdge_<T, N>> for LineSegmentView<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: &'a DirectedEdge_<T, N>) -> Self { arbitrary() }
}
impl<'a, T: TotalOrd, const N: usize> From<&'a DirectedEdge_<T, N>> for LineSegmentView<'a, T, N> {
//@ fn src/data/directed_edge.rs | From<&'a DirectedEdge_<T, N>> for LineSegmentView<'a, T, N> | from
//@ ret r
//@ spec
    ensures edge_is(&edge.src, &edge.dst, r)
//@ end
}
impl<T: TotalOrd, const N: usize> vstd::std_specs::convert::FromSpecImpl<DirectedEdge_<T, N>> for LineSegment<T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: DirectedEdge_<T, N>) -> Self { arbitrary() }
}
impl<T: TotalOrd, const N: usize> From<DirectedEdge_<T, N>> for LineSegment<T, N> {
//@ fn src/data/directed_edge.rs | From<DirectedEdge_<T, N>> for LineSegment<T, N> | from
//@ ret r
//@ spec
    ensures (r.min == EndPoint::Inclusive(edge.src) && r.max == EndPoint::Exclusive(edge.dst)) || (r.min == EndPoint::Exclusive(edge.dst) && r.max == EndPoint::Inclusive(edge.src))
//@ end
}
impl<'a, T> Intersects for &'a DirectedEdge_<T, 2> where T: PolygonScalar {
    type Result = ILineSegment<'a, T>;
    open spec fn isect_req(self, other: &'a DirectedEdge_<T, 2>) -> bool { true }
    open spec fn isect_ens(self, other: &'a DirectedEdge_<T, 2>, r: Option<ILineSegment<'a, T>>) -> bool { isect_ok(eseg(self.src, self.dst), eseg(other.src, other.dst), r) }
//@ fn src/data/directed_edge.rs | Intersects for &'a DirectedEdge_<T, 2> | intersect
//@ top
    proof { edgep::same_all(&self.src, &self.dst); edgep::same_all(&other.src, &other.dst); edgep::same_isect::<T>(); }
//@ end
}
} // verus!
