// Convex polygons: point location by binary search, validation.
use std::ops::Deref;
verus! {
//@ item src/data/polygon/convex.rs | PolygonConvex | fields=pub
pub open spec fn cvs<T: PolygonScalar>(p: Polygon<T>) -> Seq<P2> { Seq::new(p.rings@[0]@.len(), |k: int| pxy(at(p, 0, k))) }
// strictly convex, counterclockwise: every three vertices in ring order turn counterclockwise
pub open spec fn cring(v: Seq<P2>) -> bool { v.len() >= 3 && forall|i: int, j: int, k: int| 0 <= i < j < k < v.len() ==> cross3(#[trigger] v[i], #[trigger] v[j], #[trigger] v[k]) > 0real }
// side of the i-th edge (positive: to the left of it)
pub open spec fn eside(v: Seq<P2>, i: int, p: P2) -> real { cross3(v[i], v[wrapi(i + 1, v.len() as int)], p) }
pub open spec fn beyond(v: Seq<P2>, p: P2) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] eside(v, i, p) < 0real }
pub open spec fn within(v: Seq<P2>, p: P2) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] eside(v, i, p) > 0real }
pub open spec fn cloc(v: Seq<P2>, p: P2) -> PointLocation {
    if beyond(v, p) { PointLocation::Outside } else if within(v, p) { PointLocation::Inside } else { PointLocation::OnBoundary }
}
// what Polygon::validate accepts
pub open spec fn sound<T: PolygonScalar>(p: Polygon<T>) -> bool { distinct(p.points@) && p.rings@[0]@.len() >= 3 && ring_turn(p, Orientation::CounterClockWise) && edges_apart(p) }
impl<T> Deref for PolygonConvex<T> {
    type Target = Polygon<T>;
//@ fn src/data/polygon/convex.rs | Deref for PolygonConvex<T> | deref
//@ ret r
//@ spec
    ensures r == &self.0
//@ end
}
impl<T> PolygonConvex<T> where T: PolygonScalar {
//@ fn src/data/polygon/convex.rs | impl PolygonConvex<T> | new_unchecked
//@ ret r
//@ spec
    ensures r.0 == poly
//@ end
//@ fn src/data/polygon/convex.rs | impl PolygonConvex<T> | locate
//@ ret r
//@ spec
    requires wf(self.0), cring(cvs(self.0)), self.0.rings@[0]@.len() <= usize::MAX / 2
    ensures r == cloc(cvs(self.0), pxy(*pt))
//@ loop 0
    invariant
        wf(self.0), poly == &self.0, vertices@ == self.0.rings@[0]@, cring(cvs(self.0)), *p0 == at(self.0, 0, 0),
        self.0.rings@[0]@.len() <= usize::MAX / 2, 1 <= lower < upper <= vertices@.len() - 1,
        lower == 1 || cross3(cvs(self.0)[0], cvs(self.0)[lower as int], pxy(*pt)) > 0real,
        upper == vertices@.len() - 1 || cross3(cvs(self.0)[0], cvs(self.0)[upper as int], pxy(*pt)) <= 0real,
    decreases upper - lower
//@ top
    hide(cross3); hide(cring); hide(cloc); hide(tri_open); hide(tri_closed);
    let ghost v = cvs(self.0); let ghost q = pxy(*pt);
    proof { assert(v.len() >= 3) by { reveal(cring); } }
//@ before let triangle
    proof { convexp::fan(v, lower as int, q); colinear::point_eq(*pt, *p0); colinear::point_eq(*pt, *p2); assert(*p2 == at(self.0, 0, upper as int)); assert(v[upper as int] == pxy(*p2)); }
//@ end
//@ fn src/data/polygon/convex.rs | impl PolygonConvex<T> | validate
//@ ret r
//@ spec
    requires wf(self.0)
    ensures match r {
        Ok(_) => sound(self.0) && forall|i: int| 0 <= i < self.0.rings@[0]@.len() ==> #[trigger] vturn(self.0, 0, i) == Orientation::CounterClockWise,
        Err(Error::ConvexViolation) => exists|i: int| 0 <= i < self.0.rings@[0]@.len() && #[trigger] vturn(self.0, 0, i) != Orientation::CounterClockWise,
        Err(e) => !sound(self.0),
    }
//@ top
    hide(orient3); hide(wf); hide(distinct); hide(edges_apart);
    proof { convexp::all_left(self.0); }
//@ loop 0 iter it
    invariant
        wf(self.0), it.seq().len() == self.0.rings@[0]@.len(),
        it.seq().len() <= usize::MAX,
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] vturn(self.0, 0, i) == Orientation::CounterClockWise,
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).poly() == &self.0 && it.seq()[i].pos() == (Position { ring_id: RingId(0), size: self.0.rings@[0]@.len() as usize, position_id: PositionId(i as usize) }),
//@ loop_top 0
    proof { use_type_invariant(&cursor); let k = it.index@ as int; convexp::vtx(cursor, k); }
//@ end
}
} // verus!
pub mod convexp { use super::*; verus! {
// the side of a line is an affine function of the point
pub proof fn side_bary(s: P2, t: P2, a: P2, b: P2, c: P2, p: P2, u: real, v: real, w: real)
    requires bary_at(a, b, c, p, u, v, w)
    ensures cross3(s, t, p) == u * cross3(s, t, a) + v * cross3(s, t, b) + w * cross3(s, t, c)
{
    let d = psub(t, s);
    lin(d, s, a, u); lin(d, s, b, v); lin(d, s, c, w);
    // u a + v b + w c - (u + v + w) s
    assert(u * s.0 + v * s.0 + w * s.0 == s.0) by { rd(s.0, u, v); rd(s.0, u + v, w); rmc(u, s.0); rmc(v, s.0); rmc(w, s.0); }
    assert(u * s.1 + v * s.1 + w * s.1 == s.1) by { rd(s.1, u, v); rd(s.1, u + v, w); rmc(u, s.1); rmc(v, s.1); rmc(w, s.1); }
    rd(u, a.0, s.0); rd(u, a.1, s.1); rd(v, b.0, s.0); rd(v, b.1, s.1); rd(w, c.0, s.0); rd(w, c.1, s.1);
    let (x, y, z) = ((u * (a.0 - s.0), u * (a.1 - s.1)), (v * (b.0 - s.0), v * (b.1 - s.1)), (w * (c.0 - s.0), w * (c.1 - s.1)));
    assert(psub(p, s).0 == x.0 + y.0 + z.0 && psub(p, s).1 == x.1 + y.1 + z.1);
    rd(d.0, x.1 + y.1, z.1); rd(d.0, x.1, y.1); rd(d.1, x.0 + y.0, z.0); rd(d.1, x.0, y.0);
}
proof fn lin(d: P2, s: P2, a: P2, u: real)
    ensures u * cross2(d, psub(a, s)) == d.0 * (u * (a.1 - s.1)) - d.1 * (u * (a.0 - s.0))
{ rm3(d.0, u, a.1 - s.1); rm3(d.1, u, a.0 - s.0); rd(u, d.0 * (a.1 - s.1), d.1 * (a.0 - s.0)); rm3(u, d.0, a.1 - s.1); rm3(u, d.1, a.0 - s.0); }
// vertices lie to the left of every edge, and strictly so unless they are on it
pub proof fn left(v: Seq<P2>, i: int, k: int)
    requires cring(v), 0 <= i < v.len(), 0 <= k < v.len()
    ensures eside(v, i, v[k]) == 0real <==> (k == i || k == wrapi(i + 1, v.len() as int)), eside(v, i, v[k]) >= 0real
{
    let n = v.len() as int; let j = wrapi(i + 1, n);
    if k == i || k == j { degenerate(v[i], v[j]); }
    else if j == 0 { let c = cross3(v[0], v[k], v[i]); assert(c > 0real); cross3_sym(v[0], v[k], v[i]); cross3_sym(v[k], v[i], v[0]); }
    else if k > j { assert(cross3(v[i], v[j], v[k]) > 0real); }
    else { assert(cross3(v[k], v[i], v[j]) > 0real); cross3_sym(v[k], v[i], v[j]); }
}
pub proof fn degenerate(a: P2, b: P2) ensures cross3(a, b, a) == 0real, cross3(a, b, b) == 0real
{ cross3_expand(a, b, a); cross3_expand(a, b, b); cross2_anti(a, b); cross2_anti(a, a); cross2_anti(b, b); }
// the three sides decide the location of a combination of three vertices
pub proof fn combo(v: Seq<P2>, a: int, b: int, c: int, p: P2, x: real, y: real, z: real)
    requires cring(v), 0 <= a < v.len(), 0 <= b < v.len(), 0 <= c < v.len(), bary_at(v[a], v[b], v[c], p, x, y, z), x >= 0real, y >= 0real, z >= 0real
    ensures
        forall|i: int| 0 <= i < v.len() ==> #[trigger] eside(v, i, p) >= 0real,
        forall|i: int| #![trigger eside(v, i, p)] 0 <= i < v.len() && (x > 0real && a != i && a != wrapi(i + 1, v.len() as int) || y > 0real && b != i && b != wrapi(i + 1, v.len() as int) || z > 0real && c != i && c != wrapi(i + 1, v.len() as int)) ==> eside(v, i, p) > 0real,
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] eside(v, i, p) >= 0real && ((x > 0real && a != i && a != wrapi(i + 1, v.len() as int) || y > 0real && b != i && b != wrapi(i + 1, v.len() as int) || z > 0real && c != i && c != wrapi(i + 1, v.len() as int)) ==> eside(v, i, p) > 0real) by {
        left(v, i, a); left(v, i, b); left(v, i, c);
        side_bary(v[i], v[wrapi(i + 1, v.len() as int)], v[a], v[b], v[c], p, x, y, z);
        rmul_sign(x, eside(v, i, v[a])); rmul_sign(y, eside(v, i, v[b])); rmul_sign(z, eside(v, i, v[c]));
    }
}
pub proof fn all_left<T: PolygonScalar>(p: Polygon<T>)
    ensures (forall|i: int| 0 <= i < p.rings@[0]@.len() ==> #[trigger] vturn(p, 0, i) == Orientation::CounterClockWise) ==> !ring_turn(p, Orientation::ClockWise) && !ring_turn(p, Orientation::CoLinear)
{}
pub proof fn vtx<'a, T: PolygonScalar>(c: Cursor<'a, T>, k: int)
    requires wf(*c.poly()), okpos(*c.poly(), c.pos()), c.pos().ring_id.0 == 0, c.pos().position_id.0 == k
    ensures orient3(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt())) == vturn(*c.poly(), 0, k)
{}
pub open spec fn on_diag(v: Seq<P2>, u: int, q: P2) -> bool { u + 1 < v.len() && q != v[0] && q != v[u] && cross3(v[0], v[u], q) == 0real }
pub proof fn fan(v: Seq<P2>, l: int, q: P2)
    requires cring(v), 1 <= l, l + 1 < v.len(), l == 1 || cross3(v[0], v[l], q) > 0real, l + 1 == v.len() - 1 || cross3(v[0], v[l + 1], q) <= 0real
    ensures
        cross3(v[0], v[l], v[l + 1]) > 0real,
        tri_loc(v[0], v[l], v[l + 1], q) == PointLocation::Inside ==> cloc(v, q) == PointLocation::Inside,
        tri_loc(v[0], v[l], v[l + 1], q) == PointLocation::Outside ==> cloc(v, q) == PointLocation::Outside,
        tri_loc(v[0], v[l], v[l + 1], q) == PointLocation::OnBoundary && on_diag(v, l + 1, q) ==> cloc(v, q) == PointLocation::Inside,
        tri_loc(v[0], v[l], v[l + 1], q) == PointLocation::OnBoundary && !on_diag(v, l + 1, q) ==> cloc(v, q) == PointLocation::OnBoundary,
{
    hide(cross3); hide(bary_at);
    let n = v.len() as int; let u = l + 1;
    let (p0, p1, p2) = (v[0], v[l], v[u]);
    trip::locate(p0, p1, p2, q);
    cross3_sym(p0, p2, q);
    if tri_open(p0, p1, p2, q) {
        let (x, y, z) = choose|x: real, y: real, z: real| x > 0real && y > 0real && z > 0real && #[trigger] bary_at(p0, p1, p2, q, x, y, z);
        combo(v, 0, l, u, q, x, y, z);
        assert(forall|i: int| 0 <= i < n ==> #[trigger] eside(v, i, q) > 0real);
    } else if !tri_closed(p0, p1, p2, q) {
        if cross3(p1, p2, q) < 0real { assert(eside(v, l, q) < 0real); }
        else if cross3(p0, p1, q) < 0real { assert(eside(v, 0, q) < 0real); }
        else { assert(cross3(p2, p0, q) < 0real); cross3_sym(p2, p0, q); assert(u == n - 1); assert(eside(v, n - 1, q) < 0real); }
    } else {
        let (x, y, z) = choose|x: real, y: real, z: real| x >= 0real && y >= 0real && z >= 0real && #[trigger] bary_at(p0, p1, p2, q, x, y, z);
        combo(v, 0, l, u, q, x, y, z);
        trip::bary(p0, p1, p2, q, x, y, z);
        let d = cross3(p0, p1, p2);
        rmul_sign(x, d); rmul_sign(y, d); rmul_sign(z, d);
        assert(!beyond(v, q));
        corner(p0, p1, p2, q, x, y, z);
        cross3_sym(p2, p0, q);
        if on_diag(v, u, q) {
            assert(y == 0real);
            assert(x > 0real && z > 0real);
            assert forall|i: int| 0 <= i < n implies #[trigger] eside(v, i, q) > 0real by { }
        } else {
            if x == 0real { assert(eside(v, l, q) == 0real); }
            else if z == 0real && l == 1 { assert(eside(v, 0, q) == 0real); }
            else {
                assert(y == 0real);
                if u == n - 1 { assert(eside(v, n - 1, q) == 0real); }
                else { degenerate(v[l], v[u]); assert(q != v[u]); assert(q == v[0]); degenerate(v[0], v[1]); assert(eside(v, 0, q) == 0real); }
            }
        }
    }
}
proof fn corner(a: P2, b: P2, c: P2, q: P2, x: real, y: real, z: real)
    requires bary_at(a, b, c, q, x, y, z)
    ensures x == 0real && y == 0real ==> q == c, y == 0real && z == 0real ==> q == a, x == 0real && z == 0real ==> q == b
{
    if x == 0real && y == 0real { assert(q.0 == c.0 && q.1 == c.1) by(nonlinear_arith) requires x == 0real, y == 0real, z == 1real, q.0 == x * a.0 + y * b.0 + z * c.0, q.1 == x * a.1 + y * b.1 + z * c.1; }
    if y == 0real && z == 0real { assert(q.0 == a.0 && q.1 == a.1) by(nonlinear_arith) requires z == 0real, y == 0real, x == 1real, q.0 == x * a.0 + y * b.0 + z * c.0, q.1 == x * a.1 + y * b.1 + z * c.1; }
    if x == 0real && z == 0real { assert(q.0 == b.0 && q.1 == b.1) by(nonlinear_arith) requires x == 0real, z == 0real, y == 1real, q.0 == x * a.0 + y * b.0 + z * c.0, q.1 == x * a.1 + y * b.1 + z * c.1; }
}
// a point of edge j is on its line and, for another edge, strictly to its left unless it is an end
proof fn edge_pt(v: Seq<P2>, j: int, p: P2, t: real)
    requires cring(v), 0 <= j < v.len(), p == lerp(v[j], v[wrapi(j + 1, v.len() as int)], t), 0real <= t < 1real
    ensures
        eside(v, j, p) == 0real, forall|i: int| 0 <= i < v.len() && i != j && wrapi(i + 1, v.len() as int) != j ==> #[trigger] eside(v, i, p) > 0real,
{
    let n = v.len() as int; let k = wrapi(j + 1, n); let (a, b) = (v[j], v[k]); let x = 1real - t;
    rd(t, b.0, a.0); rd(t, b.1, a.1); rd(a.0, 1real, t); rd(a.1, 1real, t);
    assert(bary_at(a, b, a, p, x, t, 0real)) by { assert(0real * a.0 == 0real && 0real * a.1 == 0real) by(nonlinear_arith); assert(1real * a.0 == a.0 && 1real * a.1 == a.1) by(nonlinear_arith); }
    combo(v, j, k, j, p, x, t, 0real);
    side_bary(a, b, a, b, a, p, x, t, 0real); degenerate(a, b);
    rmul_sign(x, 0real); rmul_sign(t, 0real); rmul_sign(0real, 0real);
}
proof fn apart2<T: PolygonScalar>(p: Polygon<T>, i: int, j: int)
    requires cring(cvs(p)), 0 <= j < i < p.rings@[0]@.len()
    ensures !meets(ring_seg(p, i), ring_seg(p, j))
{
    hide(cring); hide(eside);
    let v = cvs(p); let n = v.len() as int;
    assert(n >= 3) by { reveal(cring); }
    if meets(ring_seg(p, i), ring_seg(p, j)) {
        let q = choose|q: P2| seg_has(ring_seg(p, i), q) && seg_has(ring_seg(p, j), q);
        let t = choose|t: real| seg_at(ring_seg(p, i), q, t); let u = choose|u: real| seg_at(ring_seg(p, j), q, u);
        let (a, b) = (v[i], v[wrapi(i + 1, n)]); let (c, d) = (v[j], v[wrapi(j + 1, n)]);
        if t == 1real { assert(1real * (b.0 - a.0) == b.0 - a.0 && 1real * (b.1 - a.1) == b.1 - a.1) by(nonlinear_arith); assert(q == b); }
        if u == 1real { assert(1real * (d.0 - c.0) == d.0 - c.0 && 1real * (d.1 - c.1) == d.1 - c.1) by(nonlinear_arith); assert(q == d); }
        edge_pt(v, i, q, t); edge_pt(v, j, q, u);
        if wrapi(i + 1, n) != j { assert(eside(v, i, q) > 0real); } else { assert(wrapi(j + 1, n) != i); assert(eside(v, j, q) > 0real); }
    }
}
proof fn low_among(v: Seq<P2>, m: int) -> (k: int)
    requires 1 <= m <= v.len()
    ensures 0 <= k < m, forall|j: int| 0 <= j < m ==> plex(v[k], #[trigger] v[j]) != Ordering::Greater
    decreases m
{
    if m == 1 { 0 } else { let k = low_among(v, m - 1); if plex(v[k], v[m - 1]) == Ordering::Greater { m - 1 } else { k } }
}
// a strictly convex ring has a lowest vertex, turns left there, and no two of its edges meet
pub proof fn convex_ring<T: PolygonScalar>(p: Polygon<T>)
    requires cring(cvs(p))
    ensures ring_turn(p, Orientation::CounterClockWise), edges_apart(p), forall|i: int| 0 <= i < p.rings@[0]@.len() ==> #[trigger] vturn(p, 0, i) == Orientation::CounterClockWise
{
    hide(meets); hide(cross3);
    let v = cvs(p); let n = v.len() as int;
    assert forall|i: int, j: int| 0 <= j < i < p.rings@[0]@.len() implies !meets(#[trigger] ring_seg(p, i), #[trigger] ring_seg(p, j)) by { apart2(p, i, j); }
    assert forall|i: int| 0 <= i < n implies #[trigger] vturn(p, 0, i) == Orientation::CounterClockWise by {
        let (a, b) = (wrapi(i - 1, n), wrapi(i + 1, n));
        assert(v[a] == pxy(at(p, 0, a)) && v[b] == pxy(at(p, 0, b)) && v[i] == pxy(at(p, 0, i)));
        cross3_sym(v[a], v[i], v[b]);
        if a < i && i < b { } else if a > i { assert(cross3(v[i], v[b], v[a]) > 0real); } else { assert(cross3(v[b], v[a], v[i]) > 0real); }
    }
    let k = low_among(v, n);
    assert(lowest(p, k)) by { assert forall|j: int| 0 <= j < n implies plex(pxy(at(p, 0, k)), pxy(#[trigger] at(p, 0, j))) != Ordering::Greater by { assert(plex(v[k], v[j]) != Ordering::Greater); } }
    assert(vturn(p, 0, k) == Orientation::CounterClockWise);
}
// a strictly convex polygon validates
pub proof fn convex_sound<T: PolygonScalar>(p: Polygon<T>)
    requires cring(cvs(p)), p.points@.len() == p.rings@[0]@.len(), forall|k: int| 0 <= k < p.points@.len() ==> at(p, 0, k) == #[trigger] p.points@[k]
    ensures sound(p)
{
    hide(cross3); hide(edges_apart); hide(ring_turn);
    convex_ring(p);
    let v = cvs(p); let n = v.len() as int;
    assert forall|i: int, j: int| 0 <= j < i < n implies pxy(#[trigger] p.points@[j]) != pxy(#[trigger] p.points@[i]) by {
        assert(v[i] == pxy(p.points@[i]) && v[j] == pxy(p.points@[j]));
        let k = if i + 1 < n { i + 1 } else if j > 0 { 0int } else { 1int };
        degenerate(v[i], v[k]); cross3_sym(v[i], v[i], v[k]); cross3_sym(v[k], v[i], v[i]); cross3_sym(v[i], v[k], v[i]);
        if i + 1 < n { assert(cross3(v[j], v[i], v[k]) > 0real); } else if j > 0 { assert(cross3(v[k], v[j], v[i]) > 0real); } else { assert(cross3(v[j], v[k], v[i]) > 0real); }
    }
}
} }
