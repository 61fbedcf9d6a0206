// Points drawn from a triangle are covered by it.
verus! {
// The part of `rand` that sampling uses: a value of a non-empty range, nothing more is assumed of it.
pub trait SampleUniform {}
pub trait Rng {
    fn gen_range<T: PolygonScalar + SampleUniform>(&mut self, range: core::ops::RangeInclusive<T>) -> (r: T)
        requires range@.start.v() <= range@.end.v();
}
#[verifier::external_body]
fn parts2<T>(a: [T; 2]) -> (r: (T, T)) ensures r.0 == a@[0], r.1 == a@[1] { unimplemented!() }
impl<'a, T> TriangleView<'a, T> where T: PolygonScalar {
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | rejection_sampling
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires self.ori() == Orientation::CounterClockWise
    ensures tri_loc(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2]), pxy(r)) != PointLocation::Outside
//@ rewrite? let [..] =>> parts2
//@ top
    proof { assert forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) implies a.v() == b.v() by { T::scalar_laws(a, b); } }
//@ loop 0
    invariant
        self.ori() == Orientation::CounterClockWise,
        forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a.v() == b.v(),
        pxy(min).0 <= pxy(max).0, pxy(min).1 <= pxy(max).1,
//@ end
}
} // verus!
