// The centroid of a polygon, for number types whose operators are exact.
use std::ops::{AddAssign, Index};
verus! {
// a field of exact numbers (rationals): division and sums are exact, cloning gives the same number
pub trait CField: PolygonScalar + NumOps + AddAssign + Sum {
    proof fn cfield_laws(a: Self, b: Self)
        ensures
            Self::ideal(), nv(a) == a.v(), call_ensures(Self::clone, (&a,), b) ==> a == b,
            <Self as DivSpec>::obeys_div_spec(), a.div_req(b) == (b.v() != 0real), b.v() != 0real ==> a.div_spec(b).v() == a.v() / b.v(),
            <Self as AddAssignSpec>::obeys_add_assign_spec(), a.add_assign_req(b), (*a.add_assign_spec(b)).v() == a.v() + b.v();
    proof fn csum_law(s: Seq<Self>, r: Self) ensures Self::is_sum(s, r) ==> r.v() == nsum(s);
}
// array_init: element i is what the closure answers for i
#[verifier::external_body]
pub fn array_init<T, F: FnMut(usize) -> T, const N: usize>(f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> #[trigger] f.requires((i,))
    ensures forall|i: int| 0 <= i < N ==> f.ensures((i as usize,), #[trigger] r@[i])
{ unimplemented!() }
// std::iter::empty().sum()
#[verifier::external_body]
pub fn sum_of_none<T: Sum>() -> (r: T) ensures T::is_sum(Seq::<T>::empty(), r) { unimplemented!() }
// sum of the i-th components
pub open spec fn csum<T: PolygonScalar, const N: usize>(s: Seq<Vector<T, N>>, i: int) -> real decreases s.len() { if s.len() == 0 { 0real } else { csum(s.drop_last(), i) + s.last().0@[i].v() } }
impl<T: CField, const N: usize> Sum for Vector<T, N> { open spec fn is_sum(s: Seq<Vector<T, N>>, r: Vector<T, N>) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] r.0@[i]).v() == csum(s, i) } }
impl<'a, 'b, T: CField, const N: usize> AddSpecImpl<&'a Vector<T, N>> for &'b Vector<T, N> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: &'a Vector<T, N>) -> bool { true }
    open spec fn add_spec(self, other: &'a Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, 'b, T: CField, const N: usize> Add<&'a Vector<T, N>> for &'b Vector<T, N> {
    type Output = Vector<T, N>;
//@ fn src/data/vector/add.rs | Add<&Vector<T, N>> for &Vector<T, N> | add
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r.0@[i]).v() == self.0@[i].v() + other.0@[i].v()
//@ top
    proof { cenp::field::<T>(); }
//@ closure 0
    -> (y: T) requires i < N ensures y.v() == self.0@[i as int].v() + other.0@[i as int].v()
//@ end
}
impl<T: CField, const N: usize> MulSpecImpl<T> for Vector<T, N> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: T) -> bool { true }
    open spec fn mul_spec(self, other: T) -> Vector<T, N> { arbitrary() }
}
impl<T: CField, const N: usize> Mul<T> for Vector<T, N> {
    type Output = Vector<T, N>;
//@ fn src/data/vector/mul.rs | Mul<T> for Vector<T, N> | mul
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r.0@[i]).v() == self.0@[i].v() * other.v()
//@ top
    proof { cenp::field::<T>(); }
//@ closure 0
    -> (y: T) requires i < N ensures y.v() == self.0@[i as int].v() * other.v()
//@ end
}
impl<T: CField, const N: usize> DivSpecImpl<T> for Vector<T, N> {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: T) -> bool { other.v() != 0real }
    open spec fn div_spec(self, other: T) -> Vector<T, N> { arbitrary() }
}
impl<T: CField, const N: usize> Div<T> for Vector<T, N> {
    type Output = Vector<T, N>;
//@ fn src/data/vector/div.rs | Div<T> for Vector<T, N> | div
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r.0@[i]).v() == self.0@[i].v() / other.v()
//@ top
    proof { cenp::field::<T>(); }
//@ closure 0
    -> (y: T) requires i < N ensures y.v() == self.0@[i as int].v() / other.v()
//@ end
}
impl<T: CField, const N: usize> AddAssignSpecImpl<Vector<T, N>> for Vector<T, N> {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, other: Vector<T, N>) -> bool { true }
    open spec fn add_assign_spec(&self, other: Vector<T, N>) -> &Vector<T, N> { arbitrary() }
}
impl<T: CField, const N: usize> AddAssign<Vector<T, N>> for Vector<T, N> {
//@ fn src/data/vector/add.rs | AddAssign<Vector<T, N>> for Vector<T, N> | add_assign
//@ spec
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] final(self).0@[i]).v() == old(self).0@[i].v() + other.0@[i].v()
//@ top
    proof { cenp::field::<T>(); }
//@ loop 0 iter it
    invariant
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] self.0@[k]).v() == old(self).0@[k].v() + other.0@[k].v(),
        forall|k: int| it.index@ <= k < N ==> #[trigger] self.0@[k] == old(self).0@[k],
//@ loop_top 0
    proof { cenp::field::<T>(); }
//@ end
}
impl<T: CField, const N: usize> Vector<T, N> {
//@ fn src/data/vector.rs | Sum for Vector<T, N> | sum
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ rewrite |_| std::iter::empty().sum() =>> |_i: usize| -> (z: T) ensures z.v() == 0real { let z: T = sum_of_none(); proof { T::csum_law(Seq::empty(), z); } z }
//@ spec
    requires iter.obeys_prophetic_iter_laws()
    ensures <Vector<T, N> as Sum>::is_sum(iter.remaining(), r)
//@ top
    let ghost seen = iter.remaining();
//@ loop 0 iter it
    invariant
        it.iter.obeys_prophetic_iter_laws(), it.seq() == seen, 0 <= it.index@ <= seen.len(),
        forall|i: int| 0 <= i < N ==> (#[trigger] acc.0@[i]).v() == csum(it.seq().take(it.index@ as int), i)
//@ loop_bottom 0
    proof { let s = it.seq().take(it.index@ as int + 1); assert(s.drop_last() =~= it.seq().take(it.index@ as int)); }
//@ tail res
    proof { assert(seen.take(seen.len() as int) =~= seen); }
//@ end
}
impl<'a, T, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a Point<T, N>> for &'a Vector<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Point<T, N>) -> Self { &Vector(v.array) }
}
impl<'a, T, const N: usize> From<&'a Point<T, N>> for &'a Vector<T, N> {
    // the same memory read as the other of two transparent wrappers of [T; N] (unsafe in the code)
    #[verifier::external_body]
    fn from(point: &'a Point<T, N>) -> &'a Vector<T, N> { unimplemented!() }
}
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Vector<T, N>> for Point<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vector<T, N>) -> Self { Point { array: v.0 } }
}
impl<T, const N: usize> From<Vector<T, N>> for Point<T, N> {
//@ fn src/data/point.rs | From<Vector<T, N>> for Point<T, N> | from
//@ ret r
//@ end
}
impl<T, const N: usize> Point<T, N> {
//@ fn src/data/point.rs | impl Point<T, N> | as_vec
//@ ret r
//@ spec
    ensures *r == Vector::<T, N>(self.array)
//@ end
}
// first moments: each edge's cross product weighs the sum of its ends
pub open spec fn wsum(p: P2, q: P2) -> P2 { ((p.0 + q.0) * cross2(p, q), (p.1 + q.1) * cross2(p, q)) }
pub open spec fn moment<T: PolygonScalar>(p: Polygon<T>, k: int) -> P2
    decreases k
{ if k <= 0 { (0real, 0real) } else { let w = wsum(pxy(at(p, 0, k - 1)), pxy(at(p, 0, wrapi(k, p.rings@[0]@.len() as int)))); let m = moment(p, k - 1); (m.0 + w.0, m.1 + w.1) } }
impl<T: CField> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | centroid
//@ ret r
//@ spec
    requires wf(*self), exact_into::<T, T>(), area2(*self) != 0real
    ensures ({ let (m, d) = (moment(*self, self.rings@[0]@.len() as int), 3real * area2(*self)); pxy(r) == (m.0 / d, m.1 / d) })
//@ rewrite .map( =>> .vmap(
//@ rewrite? (p + q) =>> Add::add(p, q)
//@ closure 0
    -> (o: Vector<T, 2>) ensures vxy(o) == wsum(pxy(*edge.src), pxy(*edge.dst))
//@ top
    proof { ringp::edge_list::<T>(self); areap::sides::<T>(); cenp::field::<T>(); cenp::total::<T>(*self); }
//@ end
}
} // verus!
pub mod cenp { use super::*; verus! {
pub proof fn field<T: CField>()
    ensures
        exact_ops::<T>(), exact_sum::<T>(), <T as AddAssignSpec>::obeys_add_assign_spec(),
        forall|a: T| #[trigger] nv(a) == a.v(),
        forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b,
        forall|a: T, b: T| #[trigger] a.add_spec(b).v() == a.v() + b.v(),
        forall|a: T, b: T| #[trigger] a.sub_spec(b).v() == a.v() - b.v(),
        forall|a: T, b: T| #[trigger] a.mul_spec(b).v() == a.v() * b.v(),
        forall|a: T, b: T| b.v() != 0real ==> #[trigger] a.div_spec(b).v() == a.v() / b.v(),
        forall|a: T, b: T| #[trigger] a.add_assign_req(b),
        forall|a: T, b: T| (#[trigger] a.add_assign_spec(b)).v() == a.v() + b.v(),
{
    assert forall|a: T| #[trigger] nv(a) == a.v() by { T::cfield_laws(a, a); }
    assert forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) implies a == b by { T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #![trigger a.add_spec(b)] a.add_spec(b).v() == a.v() + b.v() by { T::scalar_laws(a, b); T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #![trigger a.sub_spec(b)] a.sub_spec(b).v() == a.v() - b.v() by { T::scalar_laws(a, b); T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #![trigger a.mul_spec(b)] a.mul_spec(b).v() == a.v() * b.v() by { T::scalar_laws(a, b); T::cfield_laws(a, b); }
    assert forall|a: T, b: T| b.v() != 0real implies #[trigger] a.div_spec(b).v() == a.v() / b.v() by { T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.add_req(b) by { T::scalar_laws(a, b); T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.sub_req(b) by { T::scalar_laws(a, b); T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.mul_req(b) by { T::scalar_laws(a, b); T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.div_req(b) == (nv(b) != 0real) by { T::cfield_laws(a, b); }
    assert forall|a: T, b: T| #[trigger] a.add_assign_req(b) by { T::cfield_laws(a, b); }
    assert forall|a: T, b: T| (#[trigger] a.add_assign_spec(b)).v() == a.v() + b.v() by { T::cfield_laws(a, b); }
    assert forall|s: Seq<T>, r: T| #[trigger] T::is_sum(s, r) implies nv(r) == nsum(s) by { T::csum_law(s, r); }
    let c: T = arbitrary(); T::scalar_laws(c, c); T::cfield_laws(c, c);
}
proof fn upto<T: PolygonScalar>(p: Polygon<T>, s: Seq<Vector<T, 2>>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> vxy(#[trigger] s[i]) == wsum(pxy(at(p, 0, i)), pxy(at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))))
    ensures (csum(s.take(k), 0), csum(s.take(k), 1)) == moment(p, k)
    decreases k
{
    if k > 0 { upto(p, s, k - 1); assert(s.take(k).drop_last() =~= s.take(k - 1)); assert(s.take(k).last() == s[k - 1]); let _ = vxy(s[k - 1]); }
    else { assert(s.take(0).len() == 0); }
}
pub proof fn total<T: CField>(p: Polygon<T>)
    ensures forall|s: Seq<Vector<T, 2>>, r: Vector<T, 2>| #[trigger] <Vector<T, 2> as Sum>::is_sum(s, r) && s.len() == p.rings@[0]@.len() && (forall|i: int| 0 <= i < s.len() ==> vxy(#[trigger] s[i]) == wsum(pxy(at(p, 0, i)), pxy(at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))))) ==> vxy(r) == moment(p, p.rings@[0]@.len() as int)
{
    assert forall|s: Seq<Vector<T, 2>>, r: Vector<T, 2>| #[trigger] <Vector<T, 2> as Sum>::is_sum(s, r) && s.len() == p.rings@[0]@.len() && (forall|i: int| 0 <= i < s.len() ==> vxy(#[trigger] s[i]) == wsum(pxy(at(p, 0, i)), pxy(at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))))) implies vxy(r) == moment(p, p.rings@[0]@.len() as int) by {
        upto(p, s, s.len() as int); assert(s.take(s.len() as int) =~= s); let _ = (r.0@[0], r.0@[1]);
    }
}
} }
