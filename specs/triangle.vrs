// Triangles: orientation, membership, bounding box, area.
verus! {
//@ item src/data.rs | PointLocation | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/lib.rs | Error
//@ item src/data/triangle.rs | Triangle | fields=pub
//@ item src/data/triangle.rs | TriangleView | fields=pub
// p = u a + v b + w c with weights adding up to one
pub open spec fn bary_at(a: P2, b: P2, c: P2, p: P2, u: real, v: real, w: real) -> bool {
    u + v + w == 1real && p == (u * a.0 + v * b.0 + w * c.0, u * a.1 + v * b.1 + w * c.1)
}
pub open spec fn tri_closed(a: P2, b: P2, c: P2, p: P2) -> bool { exists|u: real, v: real, w: real| u >= 0real && v >= 0real && w >= 0real && #[trigger] bary_at(a, b, c, p, u, v, w) }
pub open spec fn tri_open(a: P2, b: P2, c: P2, p: P2) -> bool { exists|u: real, v: real, w: real| u > 0real && v > 0real && w > 0real && #[trigger] bary_at(a, b, c, p, u, v, w) }
pub open spec fn tri_loc(a: P2, b: P2, c: P2, p: P2) -> PointLocation {
    if tri_open(a, b, c, p) { PointLocation::Inside } else if tri_closed(a, b, c, p) { PointLocation::OnBoundary } else { PointLocation::Outside }
}
pub open spec fn tri_ccw<T: PolygonScalar>(p: [Point<T, 2>; 3]) -> bool { orient3(pxy(p[0]), pxy(p[1]), pxy(p[2])) == Orientation::CounterClockWise }
pub open spec fn rmin2(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax2(a: real, b: real) -> real { if a <= b { b } else { a } }

impl<T> Triangle<T> where T: PolygonScalar {
//@ fn src/data/triangle.rs | impl Triangle<T> | new
//@ ret r
//@ spec
    ensures tri_ccw(pts) ==> r == Ok::<Triangle<T>, Error>(Triangle(pts)), !tri_ccw(pts) ==> r is Err
//@ end
//@ fn src/data/triangle.rs | impl Triangle<T> | new_ccw
//@ ret r
//@ spec
    requires orient3(pxy(pts[0]), pxy(pts[1]), pxy(pts[2])) != Orientation::CoLinear
    ensures tri_ccw(r.0), r.0@.to_multiset() == pts@.to_multiset()
//@ top
    proof { trip::perms(pts@); trip::turn(pxy(pts[0]), pxy(pts[1]), pxy(pts[2])); }
//@ end
//@ fn src/data/triangle.rs | impl Triangle<T> | validate
//@ ret r
//@ spec
    ensures r.is_ok() == tri_ccw(self.0)
//@ end
//@ fn src/data/triangle.rs | impl Triangle<T> | locate
//@ ret r
//@ spec
    requires tri_ccw(self.0)
    ensures r == tri_loc(pxy(self.0[0]), pxy(self.0[1]), pxy(self.0[2]), pxy(*pt))
//@ end
//@ fn src/data/triangle.rs | impl Triangle<T> | view
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < 3 ==> *#[trigger] r.0[i] == self.0[i]
//@ end
}
impl<'a, T> TriangleView<'a, T> where T: PolygonScalar {
    pub open spec fn ori(&self) -> Orientation { orient3(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2])) }
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | new
//@ ret r
//@ spec
    ensures
        orient3(pxy(*pts[0]), pxy(*pts[1]), pxy(*pts[2])) == Orientation::CounterClockWise ==> r == Ok::<TriangleView<'a, T>, Error>(TriangleView(pts)),
        orient3(pxy(*pts[0]), pxy(*pts[1]), pxy(*pts[2])) != Orientation::CounterClockWise ==> r is Err,
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | new_ccw
//@ ret r
//@ spec
    requires orient3(pxy(*pts[0]), pxy(*pts[1]), pxy(*pts[2])) != Orientation::CoLinear
    ensures r.ori() == Orientation::CounterClockWise, r.0@.to_multiset() == pts@.to_multiset()
//@ top
    proof { trip::perms(pts@); trip::turn(pxy(*pts[0]), pxy(*pts[1]), pxy(*pts[2])); }
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | new_unchecked
//@ ret r
//@ spec
    ensures r == TriangleView(pts)
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | validate
//@ ret r
//@ spec
    ensures r.is_ok() == (self.ori() == Orientation::CounterClockWise)
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | orientation
//@ ret r
//@ spec
    ensures r == self.ori()
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | locate
//@ ret r
//@ spec
    requires self.ori() == Orientation::CounterClockWise
    ensures r == tri_loc(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2]), pxy(*pt))
//@ rewrite? use Orientation::*; =>> 
//@ top
    hide(xcross);
    proof { trip::locate(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2]), pxy(*pt)); }
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | bounding_box
//@ ret r
//@ spec
    ensures
        pxy(r.0) == (rmin2(rmin2(pxy(*self.0[0]).0, pxy(*self.0[1]).0), pxy(*self.0[2]).0), rmin2(rmin2(pxy(*self.0[0]).1, pxy(*self.0[1]).1), pxy(*self.0[2]).1)),
        pxy(r.1) == (rmax2(rmax2(pxy(*self.0[0]).0, pxy(*self.0[1]).0), pxy(*self.0[2]).0), rmax2(rmax2(pxy(*self.0[0]).1, pxy(*self.0[1]).1), pxy(*self.0[2]).1)),
//@ top
    proof { 
        T::scalar_laws(self.0[0].array[0], self.0[1].array[0]); T::scalar_laws(self.0[0].array[0], self.0[2].array[0]); T::scalar_laws(self.0[1].array[0], self.0[2].array[0]);
        T::scalar_laws(self.0[0].array[1], self.0[1].array[1]); T::scalar_laws(self.0[0].array[1], self.0[2].array[1]); T::scalar_laws(self.0[1].array[1], self.0[2].array[1]);
        assert forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) implies a.v() == b.v() by { T::scalar_laws(a, b); }
     }
//@ end
}
} // verus!
pub mod trip { use super::*; verus! {
pub proof fn turn(a: P2, b: P2, c: P2) ensures cross3(c, b, a) == -cross3(a, b, c), cross3(b, c, a) == cross3(a, b, c), cross3(b, a, c) == -cross3(a, b, c), cross3(a, c, b) == -cross3(a, b, c)
{ cross3_sym(a, b, c); cross3_sym(c, b, a); cross3_sym(b, c, a); cross3_sym(b, a, c); cross3_sym(a, c, b); }
pub proof fn perms<A>(s: Seq<A>) requires s.len() == 3
    ensures forall|r: Seq<A>| r.len() == 3 && ((r[0] == s[2] && r[1] == s[1] && r[2] == s[0]) || (r[0] == s[1] && r[1] == s[0] && r[2] == s[2]) || (r[0] == s[0] && r[1] == s[2] && r[2] == s[1])) ==> #[trigger] r.to_multiset() == s.to_multiset()
{
    perms3(s);
    assert forall|r: Seq<A>| r.len() == 3 && ((r[0] == s[2] && r[1] == s[1] && r[2] == s[0]) || (r[0] == s[1] && r[1] == s[0] && r[2] == s[2]) || (r[0] == s[0] && r[1] == s[2] && r[2] == s[1])) implies #[trigger] r.to_multiset() == s.to_multiset() by { assert(r =~= seq![r[0], r[1], r[2]]); }
}
proof fn perms3<A>(s: Seq<A>) requires s.len() == 3
    ensures seq![s[2], s[1], s[0]].to_multiset() == s.to_multiset(), seq![s[1], s[0], s[2]].to_multiset() == s.to_multiset(), seq![s[0], s[2], s[1]].to_multiset() == s.to_multiset()
{
    let e = Seq::<A>::empty();
    to_ms3(s[2], s[1], s[0]); to_ms3(s[1], s[0], s[2]); to_ms3(s[0], s[2], s[1]); to_ms3(s[0], s[1], s[2]);
    assert(s =~= seq![s[0], s[1], s[2]]);
    let m = s.to_multiset();
    assert(seq![s[2], s[1], s[0]].to_multiset() =~= m); assert(seq![s[1], s[0], s[2]].to_multiset() =~= m); assert(seq![s[0], s[2], s[1]].to_multiset() =~= m);
}
proof fn to_ms3<A>(a: A, b: A, c: A) ensures seq![a, b, c].to_multiset() == vstd::multiset::Multiset::<A>::empty().insert(a).insert(b).insert(c)
{
    let e = Seq::<A>::empty();
    e.to_multiset_ensures(); e.push(a).to_multiset_ensures(); e.push(a).push(b).to_multiset_ensures();
    assert(e.push(a).push(b).push(c) =~= seq![a, b, c]);
    assert(e.to_multiset() =~= vstd::multiset::Multiset::<A>::empty());
}
// the weights are the areas of the three parts
pub proof fn bary(a: P2, b: P2, c: P2, p: P2, u: real, v: real, w: real)
    requires bary_at(a, b, c, p, u, v, w)
    ensures cross3(b, c, p) == u * cross3(a, b, c), cross3(c, a, p) == v * cross3(a, b, c), cross3(a, b, p) == w * cross3(a, b, c)
{
    part(a, b, c, p, u, v, w); part(b, c, a, p, v, w, u); part(c, a, b, p, w, u, v);
    turn(a, b, c); turn(b, c, a); turn(c, a, b);
}
proof fn part(a: P2, b: P2, c: P2, p: P2, u: real, v: real, w: real)
    requires bary_at(a, b, c, p, u, v, w)
    ensures cross3(a, b, p) == w * cross3(a, b, c)
{
    // p - a == v (b - a) + w (c - a)
    let (e, f) = (psub(b, a), psub(c, a));
    rd(v, b.0, a.0); rd(v, b.1, a.1); rd(w, c.0, a.0); rd(w, c.1, a.1);
    assert(u * a.0 == a.0 - v * a.0 - w * a.0) by { rd(a.0, 1real, v); rd(a.0, 1real - v, w); rmc(u, a.0); rmc(v, a.0); rmc(w, a.0); assert(u == 1real - v - w); }
    assert(u * a.1 == a.1 - v * a.1 - w * a.1) by { rd(a.1, 1real, v); rd(a.1, 1real - v, w); rmc(u, a.1); rmc(v, a.1); rmc(w, a.1); assert(u == 1real - v - w); }
    let g = psub(p, a);
    assert(g.0 == v * e.0 + w * f.0); assert(g.1 == v * e.1 + w * f.1);
    rd(e.0, v * e.1, w * f.1); rd(e.1, v * e.0, w * f.0);
    rm3(e.0, v, e.1); rm3(e.1, v, e.0); rm3(e.0, w, f.1); rm3(e.1, w, f.0);
    rmc(e.0, e.1);
    rd(w, e.0 * f.1, e.1 * f.0);
}
pub proof fn area_sum(a: P2, b: P2, c: P2, p: P2) ensures cross3(a, b, p) + cross3(b, c, p) + cross3(c, a, p) == cross3(a, b, c)
{
    assert(cross3(a, b, p) + cross3(b, c, p) + cross3(c, a, p) == cross3(a, b, c)) by {
        cross3_expand(a, b, c); cross3_expand(a, b, p); cross3_expand(b, c, p); cross3_expand(c, a, p);
        cross2_anti(a, p); cross2_anti(b, p); cross2_anti(c, p);
    }
}
// q g == v q e + w q f (Cramer)
proof fn cramer(e: real, e2: real, f: real, f2: real, g: real, g2: real) ensures (e * f2 - e2 * f) * g == (g * f2 - g2 * f) * e + (e * g2 - e2 * g) * f
{
    rd(g, e * f2, e2 * f); rd(e, g * f2, g2 * f); rd(f, e * g2, e2 * g);
    rmc(g, e * f2 - e2 * f); rmc(e, g * f2 - g2 * f); rmc(f, e * g2 - e2 * g);
    assert(g * (e * f2) == e * (g * f2)) by(nonlinear_arith);
    assert(g * (e2 * f) == f * (e2 * g)) by(nonlinear_arith);
    assert(e * (g2 * f) == f * (e * g2)) by(nonlinear_arith);
}
proof fn from_areas(a: P2, b: P2, c: P2, p: P2, u: real, v: real, w: real)
    requires cross3(a, b, c) > 0real, v * cross3(a, b, c) == cross3(c, a, p), w * cross3(a, b, c) == cross3(a, b, p), u + v + w == 1real
    ensures bary_at(a, b, c, p, u, v, w)
{
    let q = cross3(a, b, c);
    let (e, f, g) = (psub(b, a), psub(c, a), psub(p, a));
    turn(c, a, p); turn(a, c, p);
    assert(cross3(c, a, p) == g.0 * f.1 - g.1 * f.0) by { assert(cross3(c, a, p) == -cross3(a, c, p)); rmc(f.0, g.1); rmc(f.1, g.0); }
    cramer(e.0, e.1, f.0, f.1, g.0, g.1);
    cramer(e.1, e.0, f.1, f.0, g.1, g.0);
    comp(q, v, w, e.0, f.0, g.0);
    rneg(q, g.1); rneg(v * q, e.1); rneg(w * q, f.1);
    assert(e.1 * f.0 - e.0 * f.1 == -q) by { rmc(e.1, f.0); rmc(e.0, f.1); }
    assert(g.1 * f.0 - g.0 * f.1 == -(v * q)); assert(e.1 * g.0 - e.0 * g.1 == -(w * q));
    comp(q, v, w, e.1, f.1, g.1);
    rd(v, b.0, a.0); rd(v, b.1, a.1); rd(w, c.0, a.0); rd(w, c.1, a.1);
    rd(a.0, 1real, v); rd(a.0, 1real - v, w); rmc(u, a.0); rmc(v, a.0); rmc(w, a.0); assert(u == 1real - v - w);
    rd(a.1, 1real, v); rd(a.1, 1real - v, w); rmc(u, a.1); rmc(v, a.1); rmc(w, a.1);
}
proof fn comp(q: real, v: real, w: real, e: real, f: real, g: real) requires q > 0real, q * g == (v * q) * e + (w * q) * f ensures g == v * e + w * f
{ assert(g == v * e + w * f) by(nonlinear_arith) requires q > 0real, q * g == (v * q) * e + (w * q) * f; }
pub proof fn locate(a: P2, b: P2, c: P2, p: P2)
    requires cross3(a, b, c) > 0real
    ensures
        tri_closed(a, b, c, p) == (cross3(a, b, p) >= 0real && cross3(b, c, p) >= 0real && cross3(c, a, p) >= 0real),
        tri_open(a, b, c, p) == (cross3(a, b, p) > 0real && cross3(b, c, p) > 0real && cross3(c, a, p) > 0real),
{
    let q = cross3(a, b, c);
    let (x, y, z) = (cross3(b, c, p), cross3(c, a, p), cross3(a, b, p));
    let (u, v, w) = (x / q, y / q, z / q);
    rdiv(x, q); rdiv(y, q); rdiv(z, q);
    assert(x + y + z == q) by { area_sum(a, b, c, p); }
    rd(q, u + v, w); rd(q, u, v); rmc(q, u); rmc(q, v); rmc(q, w); rmc(q, u + v + w); rmc(q, u + v);
    assert(u + v + w == 1real) by(nonlinear_arith) requires (u + v + w) * q == q, q > 0real;
    rmul_sign(u, q); rmul_sign(v, q); rmul_sign(w, q);
    assert(bary_at(a, b, c, p, u, v, w)) by { from_areas(a, b, c, p, u, v, w); }
    if tri_closed(a, b, c, p) {
        let (u2, v2, w2) = choose|u: real, v: real, w: real| u >= 0real && v >= 0real && w >= 0real && #[trigger] bary_at(a, b, c, p, u, v, w);
        bary(a, b, c, p, u2, v2, w2); rmul_sign(u2, q); rmul_sign(v2, q); rmul_sign(w2, q);
    }
    if tri_open(a, b, c, p) {
        let (u2, v2, w2) = choose|u: real, v: real, w: real| u > 0real && v > 0real && w > 0real && #[trigger] bary_at(a, b, c, p, u, v, w);
        bary(a, b, c, p, u2, v2, w2); rmul_sign(u2, q); rmul_sign(v2, q); rmul_sign(w2, q);
    }
}
} }
