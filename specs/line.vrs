// Lines and half-lines against segments.
verus! {
impl<'a, T, const N: usize> Clone for Direction<'a, T, N> {
//@ fn src/data/line.rs | Clone for Direction<'_, T, N> | clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'a, T, const N: usize> Copy for Direction<'a, T, N> {}
//@ item src/data/line.rs | Line | fields=pub
impl<'a, T, const N: usize> Clone for Line<'a, T, N> {
//@ fn src/data/line.rs | Clone for Line<'_, T, N> | clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'a, T, const N: usize> Copy for Line<'a, T, N> {}
impl<'a, T, const N: usize> Line<'a, T, N> {
//@ fn src/data/line.rs | impl Line<'a, T, N> | new
//@ ret r
//@ spec
    ensures r.origin == origin, r.direction == direction
//@ end
//@ fn src/data/line.rs | impl Line<'a, T, N> | new_directed
//@ ret r
//@ spec
    ensures r.origin == origin, r.direction == Direction::Vector(vector)
//@ end
//@ fn src/data/line.rs | impl Line<'a, T, N> | new_through
//@ ret r
//@ spec
    ensures r.origin == origin, r.direction == Direction::Through(through)
//@ end
}
//@ item src/data/line.rs | LineSoS | fields=pub
//@ item src/data/line.rs | HalfLineSoS | fields=pub
//@ item src/data/line.rs | ILineLineSegmentSoS
//@ item src/data/line.rs | IHalfLineLineSegmentSoS
impl<'a, T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Line<'a, T, N>> for HalfLineSoS<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(line: Line<'a, T, N>) -> Self { HalfLineSoS { line } }
}
impl<'a, T, const N: usize> From<Line<'a, T, N>> for HalfLineSoS<'a, T, N> {
//@ fn src/data/line.rs | From<Line<'a, T, N>> for HalfLineSoS<'a, T, N> | from | probe=no
//@ end
}
impl<'a, T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Line<'a, T, N>> for LineSoS<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(line: Line<'a, T, N>) -> Self { LineSoS { line } }
}
impl<'a, T, const N: usize> From<Line<'a, T, N>> for LineSoS<'a, T, N> {
//@ fn src/data/line.rs | From<Line<'a, T, N>> for LineSoS<'a, T, N> | from | probe=no
//@ end
}
impl<'a, T, const N: usize> HalfLineSoS<'a, T, N> {
//@ fn src/data/line.rs | impl HalfLineSoS<'a, T, N> | new
//@ ret r
//@ spec
    ensures r.line.origin == origin, r.line.direction == direction
//@ end
//@ fn src/data/line.rs | impl HalfLineSoS<'a, T, N> | new_directed
//@ ret r
//@ spec
    ensures r.line.origin == origin, r.line.direction == Direction::Vector(vector)
//@ end
//@ fn src/data/line.rs | impl HalfLineSoS<'a, T, N> | new_through
//@ ret r
//@ spec
    ensures r.line.origin == origin, r.line.direction == Direction::Through(through)
//@ end
}
pub open spec fn ldir<'a, T: PolygonScalar>(l: Line<'a, T, 2>) -> P2 {
    match l.direction { Direction::Vector(v) => vxy(*v), Direction::Through(p) => psub(pxy(*p), pxy(*l.origin)) }
}
// the point at parameter s of the (half-)line
pub open spec fn ray_at(o: P2, d: P2, s: real) -> P2 { (o.0 + s * d.0, o.1 + s * d.1) }
pub open spec fn side(o: P2, d: P2, p: P2) -> real { cross2(d, psub(p, o)) }
// p lies on the half-line, strictly ahead of its origin
pub open spec fn ahead(o: P2, d: P2, p: P2) -> bool { exists|s: real| s > 0real && p == #[trigger] ray_at(o, d, s) }
pub open spec fn ray_ok(o: P2, d: P2, b1: P2, b2: P2, r: Option<IHalfLineLineSegmentSoS>) -> bool {
    match r {
        // the half-line passes strictly between the end points
        Some(IHalfLineLineSegmentSoS::Crossing(Orientation::CoLinear)) =>
            side(o, d, b1) != 0real && side(o, d, b2) != 0real && crosses_inside(o, d, b1, b2),
        // it passes through exactly one end point, the other one is on side `lean`
        Some(IHalfLineLineSegmentSoS::Crossing(lean)) =>
            (side(o, d, b1) == 0real && ahead(o, d, b1) && orient_of(side(o, d, b2)) == lean)
            || (side(o, d, b2) == 0real && ahead(o, d, b2) && orient_of(side(o, d, b1)) == lean),
        None => {
            &&& side(o, d, b1) == 0real && side(o, d, b2) != 0real ==> !ahead(o, d, b1)
            &&& side(o, d, b2) == 0real && side(o, d, b1) != 0real ==> !ahead(o, d, b2)
            &&& side(o, d, b1) != 0real && side(o, d, b2) != 0real ==> !crosses_inside(o, d, b1, b2)
        }
    }
}
pub open spec fn crosses_inside(o: P2, d: P2, b1: P2, b2: P2) -> bool {
    exists|s: real, t: real| s > 0real && 0real < t < 1real && #[trigger] ray_at(o, d, s) == #[trigger] lerp(b1, b2, t)
}
impl<'a, 'b, 'c, T> Intersects<LineSegmentView<'b, T>> for &'c LineSoS<'a, T> where T: PolygonScalar {
    type Result = ILineLineSegmentSoS;
    open spec fn isect_req(self, other: LineSegmentView<'b, T>) -> bool { true }
    // the end points are on different sides, points on the line counting as left of it
    open spec fn isect_ens(self, other: LineSegmentView<'b, T>, r: Option<ILineLineSegmentSoS>) -> bool {
        let (o, d) = (pxy(*self.line.origin), ldir(self.line));
        r.is_some() == ((side(o, d, pxy(*ein(other.min))) < 0real) != (side(o, d, pxy(*ein(other.max))) < 0real))
    }
//@ fn src/data/line.rs | Intersects<LineSegmentView<'_, T>> for &LineSoS<'_, T> | intersect
//@ rewrite? LineSegmentView<'_, T> =>> LineSegmentView<'b, T>
//@ end
}
impl<'a, 'b, 'c, T> Intersects<LineSegmentView<'b, T>> for &'c HalfLineSoS<'a, T> where T: PolygonScalar {
    type Result = IHalfLineLineSegmentSoS;
    open spec fn isect_req(self, other: LineSegmentView<'b, T>) -> bool { true }
    open spec fn isect_ens(self, other: LineSegmentView<'b, T>, r: Option<IHalfLineLineSegmentSoS>) -> bool {
        ray_ok(pxy(*self.line.origin), ldir(self.line), pxy(*ein(other.min)), pxy(*ein(other.max)), r)
    }
//@ fn src/data/line.rs | Intersects<LineSegmentView<'_, T>> for &HalfLineSoS<'_, T> | intersect
//@ rewrite? LineSegmentView<'_, T> =>> LineSegmentView<'b, T>
//@ rewrite? use Orientation::*; =>> 
//@ top
    hide(xcross); hide(ahead); hide(crosses_inside);
    proof { rayp::cases(pxy(*self.line.origin), ldir(self.line), pxy(*ein(other.min)), pxy(*ein(other.max))); }
//@ end
}
//@ item src/data/directed_edge.rs | DirectedEdge | fields=pub
impl<'a, T: TotalOrd, const N: usize> Clone for DirectedEdge<'a, T, N> {
//@ fn src/data/directed_edge.rs | Clone for DirectedEdge<'_, T, N> | clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'a, T: TotalOrd, const N: usize> Copy for DirectedEdge<'a, T, N> {}
// the segment of a ring edge: source included, destination excluded
pub open spec fn eseg<T: PolygonScalar>(src: Point<T, 2>, dst: Point<T, 2>) -> Seg { Seg { lo: pxy(src), hi: pxy(dst), loi: true, hii: false } }
pub open spec fn edge_is<'a, T: TotalOrd, const N: usize>(src: &'a Point<T, N>, dst: &'a Point<T, N>, v: LineSegmentView<'a, T, N>) -> bool {
    &&& (v.min == EndPoint::Inclusive(src) && v.max == EndPoint::Exclusive(dst)) || (v.min == EndPoint::Exclusive(dst) && v.max == EndPoint::Inclusive(src))
    &&& vord(v)
}
impl<'a, T: TotalOrd, const N: usize> vstd::std_specs::convert::FromSpecImpl<DirectedEdge<'a, T, N>> for LineSegmentView<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: DirectedEdge<'a, T, N>) -> Self { arbitrary() }
}
impl<'a, T: TotalOrd, const N: usize> From<DirectedEdge<'a, T, N>> for LineSegmentView<'a, T, N> {
//@ fn src/data/directed_edge.rs | From<DirectedEdge<'a, T, N>> for LineSegmentView<'a, T, N> | from
//@ ret r
//@ spec
    ensures edge_is(edge.src, edge.dst, r)
//@ end
}
impl<'a, T: TotalOrd, const N: usize> vstd::std_specs::convert::FromSpecImpl<&DirectedEdge<'a, T, N>> for LineSegmentView<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: &DirectedEdge<'a, T, N>) -> Self { arbitrary() }
}
impl<'a, T: TotalOrd, const N: usize> From<&DirectedEdge<'a, T, N>> for LineSegmentView<'a, T, N> {
//@ fn src/data/directed_edge.rs | From<&DirectedEdge<'a, T, N>> for LineSegmentView<'a, T, N> | from
//@ ret r
//@ spec
    ensures edge_is(edge.src, edge.dst, r)
//@ end
}
impl<'a, T: TotalOrd> DirectedEdge<'a, T, 2> {
//@ fn src/data/directed_edge.rs | impl DirectedEdge<'_, T, 2> | contains
//@ ret r
//@ spec
    ensures r == seg_has(eseg(*self.src, *self.dst), pxy(*pt))
//@ top
    proof { edgep::same_all(self.src, self.dst); }
//@ end
}
impl<'a, T> Intersects for DirectedEdge<'a, T, 2> where T: PolygonScalar {
    type Result = ILineSegment<'a, T>;
    open spec fn isect_req(self, other: DirectedEdge<'a, T, 2>) -> bool { true }
    open spec fn isect_ens(self, other: DirectedEdge<'a, T, 2>, r: Option<ILineSegment<'a, T>>) -> bool { isect_ok(eseg(*self.src, *self.dst), eseg(*other.src, *other.dst), r) }
//@ fn src/data/directed_edge.rs | Intersects for DirectedEdge<'a, T, 2> | intersect
//@ top
    proof { edgep::same_all(self.src, self.dst); edgep::same_all(other.src, other.dst); edgep::same_isect::<T>(); }
//@ end
}
impl<'a, 'b, 'c, T> Intersects<DirectedEdge<'b, T>> for &'c HalfLineSoS<'a, T> where T: PolygonScalar {
    type Result = IHalfLineLineSegmentSoS;
    open spec fn isect_req(self, other: DirectedEdge<'b, T>) -> bool { true }
    open spec fn isect_ens(self, other: DirectedEdge<'b, T>, r: Option<IHalfLineLineSegmentSoS>) -> bool {
        ray_ok(pxy(*self.line.origin), ldir(self.line), pxy(*other.src), pxy(*other.dst), r)
    }
//@ fn src/data/line.rs | Intersects<DirectedEdge<'_, T>> for &HalfLineSoS<'_, T> | intersect
//@ rewrite? DirectedEdge<'_, T> =>> DirectedEdge<'b, T>
//@ top
    proof { rayp::ray_flip(pxy(*self.line.origin), ldir(self.line), pxy(*other.src), pxy(*other.dst)); }
//@ end
}
} // verus!
pub mod edgep { use super::*; verus! {
pub open spec fn same_seg(s: Seg, t: Seg) -> bool { t == s || t == (Seg { lo: s.hi, loi: s.hii, hi: s.lo, hii: s.loi }) }
proof fn flip_has(s: Seg, p: P2) ensures seg_has(s, p) ==> seg_has(Seg { lo: s.hi, loi: s.hii, hi: s.lo, hii: s.loi }, p)
{
    if seg_has(s, p) {
        let t = choose|t: real| seg_at(s, p, t);
        let u = 1real - t;
        rd(s.hi.0 - s.lo.0, 1real, t); rd(s.hi.1 - s.lo.1, 1real, t); rneg(u, s.hi.0 - s.lo.0); rneg(u, s.hi.1 - s.lo.1);
        assert(s.lo.0 - s.hi.0 == -(s.hi.0 - s.lo.0) && s.lo.1 - s.hi.1 == -(s.hi.1 - s.lo.1));
        assert(seg_at(Seg { lo: s.hi, loi: s.hii, hi: s.lo, hii: s.loi }, p, u));
    }
}
pub proof fn same_has(s: Seg, t: Seg) requires same_seg(s, t) ensures forall|p: P2| seg_has(s, p) == #[trigger] seg_has(t, p)
{
    assert forall|p: P2| seg_has(s, p) == #[trigger] seg_has(t, p) by { flip_has(s, p); flip_has(t, p); }
}
pub proof fn same_all<'a, T: PolygonScalar>(src: &'a Point<T, 2>, dst: &'a Point<T, 2>)
    ensures forall|v: LineSegmentView<'a, T, 2>| #[trigger] edge_is(src, dst, v) ==> vord(v) && same_seg(eseg(*src, *dst), vseg(v)) && (forall|p: P2| seg_has(eseg(*src, *dst), p) == #[trigger] seg_has(vseg(v), p))
{
    assert forall|v: LineSegmentView<'a, T, 2>| #[trigger] edge_is(src, dst, v) implies vord(v) && same_seg(eseg(*src, *dst), vseg(v)) && (forall|p: P2| seg_has(eseg(*src, *dst), p) == #[trigger] seg_has(vseg(v), p)) by { same_has(eseg(*src, *dst), vseg(v)); }
}
pub proof fn same_isect<'a, T: PolygonScalar>()
    ensures forall|s: Seg, t: Seg, s2: Seg, t2: Seg, r: Option<ILineSegment<'a, T>>| #[trigger] same_seg(s, s2) && #[trigger] same_seg(t, t2) && #[trigger] isect_ok(s2, t2, r) ==> isect_ok(s, t, r)
{
    assert forall|s: Seg, t: Seg, s2: Seg, t2: Seg, r: Option<ILineSegment<'a, T>>| #[trigger] same_seg(s, s2) && #[trigger] same_seg(t, t2) && #[trigger] isect_ok(s2, t2, r) implies isect_ok(s, t, r) by {
        same_has(s, s2); same_has(t, t2);
        let (a, b) = (psub(s.hi, s.lo), psub(t.hi, t.lo));
        let (a2, b2) = (psub(s2.hi, s2.lo), psub(t2.hi, t2.lo));
        assert(a2 == a || a2 == (-a.0, -a.1)); assert(b2 == b || b2 == (-b.0, -b.1));
        neg_cross(a, b); neg_cross((-a.0, -a.1), b); neg_cross(b, a);
        rneg(a.0, b.1); rneg(a.1, b.0); rneg(b.1, a.0); rneg(b.0, a.1); rneg(-a.0, b.1); rneg(-a.1, b.0); rmc(a.0, b.1); rmc(a.1, b.0); rmc(-a.0, b.1); rmc(-a.1, b.0); rneg(b.1, -a.0); rneg(b.0, -a.1);
        assert(parallel_segs(s, t) == parallel_segs(s2, t2));
        if meets(s2, t2) { let p = choose|p: P2| seg_has(s2, p) && seg_has(t2, p); assert(seg_has(s, p) && seg_has(t, p)); }
        if meets(s, t) { let p = choose|p: P2| seg_has(s, p) && seg_has(t, p); assert(seg_has(s2, p) && seg_has(t2, p)); }
        if let Some(ILineSegment::Overlap(v)) = r {
            assert forall|p: P2| #![auto] seg_has(vseg(v), p) == (seg_has(s, p) && seg_has(t, p)) by { assert(seg_has(s2, p) == seg_has(s, p)); assert(seg_has(t2, p) == seg_has(t, p)); }
            assert(isect_ok(s, t, Some(ILineSegment::Overlap(v))));
        }
    }
}
proof fn neg_cross(a: P2, b: P2) ensures cross2((-a.0, -a.1), b) == -cross2(a, b), cross2(a, (-b.0, -b.1)) == -cross2(a, b)
{ assert((-a.0) * b.1 == -(a.0 * b.1)) by(nonlinear_arith); assert((-a.1) * b.0 == -(a.1 * b.0)) by(nonlinear_arith);
  assert(a.0 * (-b.1) == -(a.0 * b.1)) by(nonlinear_arith); assert(a.1 * (-b.0) == -(a.1 * b.0)) by(nonlinear_arith); }
} }
pub mod rayp { use super::*; verus! {
pub proof fn side_ray(o: P2, d: P2, s: real) ensures side(o, d, ray_at(o, d, s)) == 0real
{ assert(d.0 * (s * d.1) == d.1 * (s * d.0)) by(nonlinear_arith); }
// p on the line of the half-line, w any vector: cross(w, o - p) tells on which side of the origin p lies
pub proof fn behind_or_ahead(o: P2, d: P2, b1: P2, b2: P2)
    requires side(o, d, b1) == 0real, side(o, d, b2) != 0real
    ensures ahead(o, d, b1) == (orient3(b1, b2, o) == orient_of(side(o, d, b2)))
{
    // b1 = o + s d
    let e = psub(b1, o);
    let s = if d.0 != 0real { e.0 / d.0 } else { e.1 / d.1 };
    if d.0 == 0real && d.1 == 0real { rmul_sign(d.0, b2.1 - o.1); rmul_sign(d.1, b2.0 - o.0); assert(false); }
    assert(d.0 * e.1 == d.1 * e.0);
    if d.0 != 0real { rdiv(e.0, d.0); assert(e.1 == s * d.1) by(nonlinear_arith) requires d.0 * e.1 == d.1 * e.0, s * d.0 == e.0, d.0 != 0real; }
    else { rdiv(e.1, d.1); assert(e.0 == 0real) by(nonlinear_arith) requires d.0 == 0real, d.0 * e.1 == d.1 * e.0, d.1 != 0real; assert(s * d.0 == 0real) by(nonlinear_arith) requires d.0 == 0real; }
    assert(b1 == ray_at(o, d, s));
    // cross(b2 - b1, o - b1) == s * side(b2)
    let f = psub(b2, b1);
    let k = side(o, d, b2);
    assert(cross3(b1, b2, o) == s * k) by {
        assert(cross3(b1, b2, o) == f.0 * (o.1 - b1.1) - f.1 * (o.0 - b1.0));
        assert(o.1 - b1.1 == -(s * d.1)); assert(o.0 - b1.0 == -(s * d.0));
        rneg(f.0, s * d.1); rneg(f.1, s * d.0);
        rm3(f.0, s, d.1); rm3(f.1, s, d.0);
        rd(s, d.0 * f.1, d.1 * f.0);
        rmc(f.0, d.1); rmc(f.1, d.0);
        // d x (b2 - o) == d x (b2 - b1)
        rd(d.0, b2.1 - o.1, b1.1 - o.1); rd(d.1, b2.0 - o.0, b1.0 - o.0);
        assert(f.1 == (b2.1 - o.1) - (b1.1 - o.1)); assert(f.0 == (b2.0 - o.0) - (b1.0 - o.0));
        assert(k == d.0 * f.1 - d.1 * f.0);
    }
    rmul_sign(s, k);
    if ahead(o, d, b1) {
        let s2 = choose|s2: real| s2 > 0real && b1 == #[trigger] ray_at(o, d, s2);
        assert(s2 * d.0 == s * d.0 && s2 * d.1 == s * d.1);
        assert(s == s2) by(nonlinear_arith) requires s2 * d.0 == s * d.0, s2 * d.1 == s * d.1, d.0 != 0real || d.1 != 0real;
    }
}
pub proof fn side_lerp(o: P2, d: P2, b1: P2, b2: P2, t: real)
    ensures side(o, d, lerp(b1, b2, t)) == side(o, d, b1) + t * (side(o, d, b2) - side(o, d, b1))
{
    let v = (o.0 + d.0, o.1 + d.1);
    cross_at(o, v, b1, b2, t);
    assert(v.0 - o.0 == d.0 && v.1 - o.1 == d.1);
}
// strictly opposite sides
pub proof fn opposite_case(o: P2, d: P2, b1: P2, b2: P2)
    requires segp::opposite(side(o, d, b1), side(o, d, b2))
    ensures crosses_inside(o, d, b1, b2) == (orient3(b1, b2, o) != Orientation::CoLinear && orient3(b1, b2, o) != orient_of(side(o, d, b1)))
{
    let f1 = side(o, d, b1); let f2 = side(o, d, b2);
    let q = f1 - f2;
    let t = f1 / q;
    rdiv(f1, q);
    assert(0real < t < 1real) by(nonlinear_arith) requires t * q == f1, (f1 < 0real && q < f1) || (f1 > 0real && q > f1);
    let x = lerp(b1, b2, t);
    side_lerp(o, d, b1, b2, t); rneg(t, q); assert(f2 - f1 == -q);
    assert(side(o, d, x) == 0real);
    // on the half-line: compare with b2; behind_or_ahead(x, b2)
    behind_or_ahead(o, d, x, b2);
    // cross3(x, b2, o) == (1 - t) * cross3(b1, b2, o)
    let g = psub(b2, b1);
    assert(cross3(x, b2, o) == (1real - t) * cross3(b1, b2, o)) by {
        cross_at(b2, o, b1, b2, t); // cross3(b2, o, x) = cross3(b2,o,b1) + t (cross3(b2,o,b2) - cross3(b2,o,b1))
        cross3_sym(x, b2, o); cross3_sym(b1, b2, o); cross3_sym(b2, o, b2);
        let k = cross3(b1, b2, o);
        assert(cross3(b2, o, x) == k + t * (0real - k));
        rd(k, 1real, t); rneg(t, k);
    }
    rmul_sign(1real - t, cross3(b1, b2, o));
    assert(ahead(o, d, x) == (orient3(b1, b2, o) == orient_of(f2)));
    if ahead(o, d, x) {
        let s = choose|s: real| s > 0real && x == #[trigger] ray_at(o, d, s);
        assert(ray_at(o, d, s) == lerp(b1, b2, t));
    }
    if crosses_inside(o, d, b1, b2) {
        let (s, t2) = choose|s: real, t2: real| s > 0real && 0real < t2 < 1real && #[trigger] ray_at(o, d, s) == #[trigger] lerp(b1, b2, t2);
        side_ray(o, d, s); side_lerp(o, d, b1, b2, t2);
        assert(f1 + t2 * (f2 - f1) == 0real);
        assert(t2 == t) by(nonlinear_arith) requires f1 + t2 * (f2 - f1) == 0real, t * q == f1, q == f1 - f2, q != 0real;
        assert(ahead(o, d, x));
    }
}
pub proof fn cases(o: P2, d: P2, b1: P2, b2: P2)
    ensures
        side(o, d, b1) == 0real && side(o, d, b2) != 0real ==> ahead(o, d, b1) == (orient3(b1, b2, o) == orient_of(side(o, d, b2))),
        side(o, d, b2) == 0real && side(o, d, b1) != 0real ==> ahead(o, d, b2) == (orient3(b2, b1, o) == orient_of(side(o, d, b1))),
        side(o, d, b1) != 0real && side(o, d, b2) != 0real ==> crosses_inside(o, d, b1, b2) == (segp::opposite(side(o, d, b1), side(o, d, b2)) && orient3(b1, b2, o) != Orientation::CoLinear && orient3(b1, b2, o) != orient_of(side(o, d, b1))),
{
    if side(o, d, b1) == 0real && side(o, d, b2) != 0real { behind_or_ahead(o, d, b1, b2); }
    if side(o, d, b2) == 0real && side(o, d, b1) != 0real { behind_or_ahead(o, d, b2, b1); }
    if segp::opposite(side(o, d, b1), side(o, d, b2)) { opposite_case(o, d, b1, b2); }
    else if side(o, d, b1) != 0real && side(o, d, b2) != 0real {
        if crosses_inside(o, d, b1, b2) {
            let (s, t) = choose|s: real, t: real| s > 0real && 0real < t < 1real && #[trigger] ray_at(o, d, s) == #[trigger] lerp(b1, b2, t);
            side_ray(o, d, s); side_lerp(o, d, b1, b2, t);
            let (f1, f2) = (side(o, d, b1), side(o, d, b2));
            assert(f1 + t * (f2 - f1) != 0real) by(nonlinear_arith) requires 0real < t < 1real, (f1 > 0real && f2 > 0real) || (f1 < 0real && f2 < 0real);
        }
    }
}
pub proof fn ray_flip(o: P2, d: P2, b1: P2, b2: P2)
    ensures forall|r: Option<IHalfLineLineSegmentSoS>| ray_ok(o, d, b1, b2, r) == ray_ok(o, d, b2, b1, r)
{
    assert(crosses_inside(o, d, b1, b2) == crosses_inside(o, d, b2, b1)) by { flip1(o, d, b1, b2); flip1(o, d, b2, b1); }
}
proof fn flip1(o: P2, d: P2, b1: P2, b2: P2) ensures crosses_inside(o, d, b1, b2) ==> crosses_inside(o, d, b2, b1)
{
    if crosses_inside(o, d, b1, b2) {
        let (s, t) = choose|s: real, t: real| s > 0real && 0real < t < 1real && #[trigger] ray_at(o, d, s) == #[trigger] lerp(b1, b2, t);
        let u = 1real - t;
        rd(b2.0 - b1.0, 1real, t); rd(b2.1 - b1.1, 1real, t); rneg(u, b2.0 - b1.0); rneg(u, b2.1 - b1.1);
        assert(b1.0 - b2.0 == -(b2.0 - b1.0) && b1.1 - b2.1 == -(b2.1 - b1.1));
        assert(ray_at(o, d, s) == lerp(b2, b1, u));
    }
}
} }
