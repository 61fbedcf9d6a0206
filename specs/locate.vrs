// Point location in a polygon: exact boundary membership, even-odd rule elsewhere.
use crate::IHalfLineLineSegmentSoS::Crossing;
verus! {
// the edge a -> b is crossed by the ray from p to the right (an end point on the ray counts as below it)
pub open spec fn ecross(a: P2, b: P2, p: P2) -> bool {
    (a.1 > p.1) != (b.1 > p.1) && (if b.1 > a.1 { cross3(a, b, p) > 0real } else { cross3(a, b, p) < 0real })
}
// number of crossed edges among the first k
pub open spec fn crossings<T: PolygonScalar>(p: Polygon<T>, o: P2, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { crossings(p, o, k - 1) + (if ecross(pxy(at(p, 0, k - 1)), pxy(at(p, 0, wrapi(k, p.rings@[0]@.len() as int))), o) { 1int } else { 0int }) } }
pub open spec fn on_edge<T: PolygonScalar>(p: Polygon<T>, o: P2, i: int) -> bool { seg_has(eseg(at(p, 0, i), at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))), o) }
pub open spec fn on_boundary<T: PolygonScalar>(p: Polygon<T>, o: P2) -> bool { exists|i: int| 0 <= i < p.rings@[0]@.len() && #[trigger] on_edge(p, o, i) }
pub open spec fn located<T: PolygonScalar>(p: Polygon<T>, o: P2) -> PointLocation {
    if on_boundary(p, o) { PointLocation::OnBoundary } else if crossings(p, o, p.rings@[0]@.len() as int) % 2 == 0 { PointLocation::Outside } else { PointLocation::Inside }
}
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | locate
//@ ret r
//@ spec
    requires wf(*self), self.rings@.len() == 1, self.rings@[0]@.len() <= i32::MAX
    ensures r == located(*self, pxy(*origin))
//@ loop 0 iter it
    invariant
        wf(*self), self.rings@.len() == 1, self.rings@[0]@.len() <= i32::MAX, it.seq().len() == self.rings@[0]@.len(),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i].src == at(*self, 0, i) && *it.seq()[i].dst == at(*self, 0, wrapi(i + 1, self.rings@[0]@.len() as int)),
        intersections == crossings(*self, pxy(*origin), it.index@ as int), 0 <= intersections <= it.index@,
        forall|i: int| 0 <= i < it.index@ ==> !#[trigger] on_edge(*self, pxy(*origin), i),
        *ray.line.origin == *origin, ldir(ray.line) == (1real, 0real),
//@ loop_top 0
    proof { let k = it.index@ as int; let _ = on_edge(*self, pxy(*origin), k); locp::counted(pxy(*origin), pxy(at(*self, 0, k)), pxy(at(*self, 0, wrapi(k + 1, self.rings@[0]@.len() as int)))); }
//@ top
    proof { ringp::edge_list::<T>(self); }
//@ end
}
} // verus!
pub mod locp { use super::*; verus! {
pub proof fn counted(o: P2, a: P2, b: P2)
    ensures forall|r: Option<IHalfLineLineSegmentSoS>| #[trigger] ray_ok(o, (1real, 0real), a, b, r) ==> ecross(a, b, o) == (match r { Some(IHalfLineLineSegmentSoS::Crossing(l)) => l != Orientation::ClockWise, None => false })
{
    let d = (1real, 0real);
    rayp::cases(o, d, a, b);
    assert(side(o, d, a) == a.1 - o.1 && side(o, d, b) == b.1 - o.1);
    cross3_sym(a, b, o);
}
} }
