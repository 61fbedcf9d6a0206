// Ears: convex vertices whose triangle contains no other vertex of the ring.
use std::ops::Bound::Excluded;
verus! {
pub open spec fn ear_tri<'a, T: PolygonScalar>(c: Cursor<'a, T>, k: int) -> PointLocation { tri_loc(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt()), pxy(c.step(k).pt())) }
// the vertex is convex and every vertex other than it and its neighbours lies outside the triangle they form
pub open spec fn ear<'a, T: PolygonScalar>(c: Cursor<'a, T>) -> bool {
    orient3(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt())) == Orientation::CounterClockWise
        && forall|k: int| 2 <= k < c.pos().size - 1 ==> #[trigger] ear_tri(c, k) == PointLocation::Outside
}
impl<'a, T> Cursor<'a, T> {
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | is_ear
//@ ret r
//@ spec
    ensures r == ear(*self)
//@ top
    proof {
        use_type_invariant(self);
        let n = self.position.size as int;
        cross3_sym(pxy(self.step(-1).pt()), pxy(self.pt()), pxy(self.step(1).pt()));
        if n <= 2 { assert(self.step(-1) == self.step(1) || self.step(1) == *self); }
        assert forall|k: int| 0 <= k < n - 1 implies (#[trigger] self.step(1).step(k)) == self.step(k + 1) by { }
        assert(self.step(-1).step(-1) == self.step(if n >= 2 { -2 } else { 0 }));
    }
//@ loop 0 iter it
    invariant
        it.seq().len() == self.pos().size - 3,
        trig.ori() == Orientation::CounterClockWise, *trig.0[0] == self.step(-1).pt(), *trig.0[1] == self.pt(), *trig.0[2] == self.step(1).pt(),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> it.seq()[i].pt() == self.step(i + 2).pt(),
        forall|i: int| #![trigger ear_tri(*self, i)] 2 <= i < it.index@ + 2 ==> ear_tri(*self, i) == PointLocation::Outside,
//@ loop_top 0
    proof { let _ = ear_tri(*self, it.index@ + 2); }
//@ end
}
} // verus!
