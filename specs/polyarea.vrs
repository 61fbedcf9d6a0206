// Polygon metrics: signed area (shoelace), bounding box, centroid.
verus! {
// twice the signed area: sum of the cross products of consecutive vertices
pub open spec fn shoelace<T: PolygonScalar>(p: Polygon<T>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { shoelace(p, k - 1) + cross2(pxy(at(p, 0, k - 1)), pxy(at(p, 0, wrapi(k, p.rings@[0]@.len() as int)))) } }
pub open spec fn area2<T: PolygonScalar>(p: Polygon<T>) -> real { shoelace(p, p.rings@[0]@.len() as int) }
pub open spec fn nsum<F>(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { nsum(s.drop_last()) + nv(s.last()) } }
pub open spec fn exact_sum<F: Sum>() -> bool { forall|s: Seq<F>, r: F| #[trigger] F::is_sum(s, r) ==> nv(r) == nsum(s) }
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | signed_area
//@ ret r
//@ spec
    requires wf(*self), exact_ops::<F>(), exact_sum::<F>(), exact_into::<T, F>(), exact_from::<F>()
    ensures nv(r) == area2(*self) / 2real
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | signed_area_2x
//@ ret r
//@ spec
    requires wf(*self), exact_ops::<F>(), exact_sum::<F>(), exact_into::<T, F>()
    ensures nv(r) == area2(*self)
//@ rewrite .map( =>> .vmap(
//@ closure 0
    -> (o: F) ensures nv(o) == cross2(pxy(*edge.src), pxy(*edge.dst))
//@ top
    proof { ringp::edge_list::<T>(self); areap::sum_up::<T, F>(*self); areap::sides::<T>(); }
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | bounding_box
//@ ret r
//@ spec
    requires wf(*self)
    ensures box_of(*self, self.rings@[0]@.len() as int, pxy(r.0), pxy(r.1))
//@ top
    proof { areap::scalars::<T>(); }
//@ loop 0 iter it
    invariant
        wf(*self), it.seq().len() == self.rings@[0]@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger at(*self, 0, i)] 0 <= i < it.seq().len() ==> it.seq()[i].pt() == at(*self, 0, i),
        it.index@ == 0 ==> (min_x.v(), min_y.v()) == pxy(at(*self, 0, 0)) && (max_x.v(), max_y.v()) == pxy(at(*self, 0, 0)),
        it.index@ > 0 ==> box_of(*self, it.index@ as int, (min_x.v(), min_y.v()), (max_x.v(), max_y.v())),
//@ loop_top 0
    proof { areap::scalars::<T>(); }
    let ghost (lo, hi) = ((min_x.v(), min_y.v()), (max_x.v(), max_y.v()));
//@ loop_bottom 0
    proof { areap::box_step(*self, it.index@ as int, lo, hi, (min_x.v(), min_y.v()), (max_x.v(), max_y.v())); }
//@ end
}
// lo and hi are the coordinate-wise least and greatest of the first k boundary vertices
pub open spec fn box_of<T: PolygonScalar>(p: Polygon<T>, k: int, lo: P2, hi: P2) -> bool {
    &&& forall|i: int| 0 <= i < k ==> lo.0 <= pxy(#[trigger] at(p, 0, i)).0 <= hi.0 && lo.1 <= pxy(at(p, 0, i)).1 <= hi.1
    &&& exists|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).0 == lo.0
    &&& exists|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).0 == hi.0
    &&& exists|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).1 == lo.1
    &&& exists|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).1 == hi.1
}
} // verus!
pub mod areap { use super::*; verus! {
pub proof fn scalars<T: PolygonScalar>()
    ensures
        forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a.v() == b.v(),
        <T as PartialOrdSpec>::obeys_partial_cmp_spec(),
        forall|a: T, b: T| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(rcmp(a.v(), b.v())),
{
    assert forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) implies a.v() == b.v() by { T::scalar_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(rcmp(a.v(), b.v())) by { T::scalar_laws(a, b); }
    assert(<T as PartialOrdSpec>::obeys_partial_cmp_spec()) by { T::scalar_laws(arbitrary(), arbitrary()); }
}
pub proof fn box_step<T: PolygonScalar>(p: Polygon<T>, k: int, lo: P2, hi: P2, lo2: P2, hi2: P2)
    requires
        0 <= k, k == 0 ==> lo == pxy(at(p, 0, 0)) && hi == lo, k > 0 ==> box_of(p, k, lo, hi),
    ensures
        ({ let q = pxy(at(p, 0, k)); lo2 == (rmin2(lo.0, q.0), rmin2(lo.1, q.1)) && hi2 == (rmax2(hi.0, q.0), rmax2(hi.1, q.1)) ==> box_of(p, k + 1, lo2, hi2) })
{
    let q = at(p, 0, k);
    if k > 0 {
        let a = choose|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).0 == lo.0; let b = choose|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).0 == hi.0;
        let c = choose|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).1 == lo.1; let d = choose|i: int| 0 <= i < k && pxy(#[trigger] at(p, 0, i)).1 == hi.1;
        let _ = (at(p, 0, a), at(p, 0, b), at(p, 0, c), at(p, 0, d));
    }
}
pub proof fn sides<T: PolygonScalar>()
    ensures forall|p: Point<T, 2>, q: Point<T, 2>| #![trigger cross2(pxy(p), pxy(q))] cross2(pxy(p), pxy(q)) == p.array[0].v() * q.array[1].v() - q.array[0].v() * p.array[1].v()
{
    assert forall|p: Point<T, 2>, q: Point<T, 2>| #![trigger cross2(pxy(p), pxy(q))] cross2(pxy(p), pxy(q)) == p.array[0].v() * q.array[1].v() - q.array[0].v() * p.array[1].v() by { rmc(p.array[1].v(), q.array[0].v()); }
}
proof fn upto<T: PolygonScalar, F>(p: Polygon<T>, s: Seq<F>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> nv(#[trigger] s[i]) == cross2(pxy(at(p, 0, i)), pxy(at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))))
    ensures nsum(s.take(k)) == shoelace(p, k)
    decreases k
{
    if k > 0 { upto(p, s, k - 1); assert(s.take(k).drop_last() =~= s.take(k - 1)); assert(s.take(k).last() == s[k - 1]); }
    else { assert(s.take(0).len() == 0); }
}
pub proof fn sum_up<T: PolygonScalar, F: Sum>(p: Polygon<T>)
    requires exact_sum::<F>()
    ensures forall|s: Seq<F>, r: F| #[trigger] F::is_sum(s, r) && s.len() == p.rings@[0]@.len() && (forall|i: int| 0 <= i < s.len() ==> nv(#[trigger] s[i]) == cross2(pxy(at(p, 0, i)), pxy(at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))))) ==> nv(r) == area2(p)
{
    assert forall|s: Seq<F>, r: F| #[trigger] F::is_sum(s, r) && s.len() == p.rings@[0]@.len() && (forall|i: int| 0 <= i < s.len() ==> nv(#[trigger] s[i]) == cross2(pxy(at(p, 0, i)), pxy(at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))))) implies nv(r) == area2(p) by {
        upto(p, s, s.len() as int); assert(s.take(s.len() as int) =~= s);
    }
}
} }
