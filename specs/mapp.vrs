// Polygons with other coordinates: mapped and cast point by point, indices untouched.
verus! {
// array_init: element i is what the closure answers for i
#[verifier::external_body]
pub fn array_init<T, F: FnMut(usize) -> T, const N: usize>(f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> #[trigger] f.requires((i,))
    ensures forall|i: int| 0 <= i < N ==> f.ensures((i as usize,), #[trigger] r@[i])
{ unimplemented!() }
// Iterator::collect into a vector
pub trait VCollect: Iterator + Sized {
    #[verifier::external_body]
    fn vcollect(self) -> (r: Vec<Self::Item>)
        requires self.obeys_prophetic_iter_laws()
        ensures self.will_return_none(), r@ == self.remaining()
    { unimplemented!() }
}
impl<I: Iterator> VCollect for I {}
// cloning gives the same value
pub open spec fn cl<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
pub open spec fn each_cloned<T: Clone, const N: usize>(a: Point<T, N>, b: Point<T, N>) -> bool { forall|i: int| 0 <= i < N ==> call_ensures(T::clone, (&a.array@[i],), #[trigger] b.array@[i]) }
// #[derive(Clone)]
impl<T: Clone, const N: usize> Clone for Point<T, N> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures each_cloned(*self, r) { unimplemented!() }
}
impl<T, const N: usize> Point<T, N> {
//@ fn src/data/point.rs | impl Point<T, N> | map
//@ ret r
//@ spec
    requires cl::<T>(), forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] self.array@[i],))
    ensures forall|i: int| 0 <= i < N ==> call_ensures(f, (self.array@[i],), #[trigger] r.array@[i])
//@ closure 0
    -> (y: U) requires i < N ensures call_ensures(f, (self.array@[i as int],), y)
//@ end
//@ fn src/data/point.rs | impl Point<T, N> | cast
//@ ret r
//@ spec
    requires cl::<T>(), forall|t: T| #[trigger] call_requires(<T as Into<U>>::into, (t,))
    ensures forall|i: int| 0 <= i < N ==> call_ensures(<T as Into<U>>::into, (self.array@[i],), #[trigger] r.array@[i])
//@ closure 0
    -> (y: U) requires i < N ensures call_ensures(<T as Into<U>>::into, (self.array@[i as int],), y)
//@ end
}
pub open spec fn same_shape<T, U>(p: Polygon<T>, r: Polygon<U>) -> bool { r.rings == p.rings && r.ring_index == p.ring_index && r.position_index == p.position_index && r.points@.len() == p.points@.len() }
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | map
//@ ret r
//@ spec
    requires cl::<T>(), cl::<F>(), forall|t: T| #[trigger] call_requires(f, (t,))
    ensures same_shape(self, r), forall|i: int, k: int| 0 <= i < self.points@.len() && 0 <= k < 2 ==> call_ensures(f, (self.points@[i].array@[k],), (#[trigger] r.points@[i].array@[k]))
//@ rewrite .map(|p| =>> .vmap(|p|
//@ rewrite .collect() =>> .vcollect()
//@ closure 0
    -> (q: Point<U, 2>) ensures forall|k: int| 0 <= k < 2 ==> call_ensures(f, (p.array@[k],), #[trigger] q.array@[k])
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | cast
//@ ret r
//@ spec
    requires cl::<T>(), forall|t: T| #[trigger] call_requires(<T as Into<U>>::into, (t,))
    ensures same_shape(self, r), forall|i: int, k: int| 0 <= i < self.points@.len() && 0 <= k < 2 ==> call_ensures(<T as Into<U>>::into, (self.points@[i].array@[k],), (#[trigger] r.points@[i].array@[k]))
//@ rewrite .map(|p| =>> .vmap(|p|
//@ rewrite .collect() =>> .vcollect()
//@ closure 0
    -> (q: Point<U, 2>) ensures forall|k: int| 0 <= k < 2 ==> call_ensures(<T as Into<U>>::into, (p.array@[k],), #[trigger] q.array@[k])
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | iter
//@ ret r
//@ spec
    ensures r.iter.obeys_prophetic_iter_laws(), r.iter.remaining() == self.points@.as_ref()
//@ end
}
//@ item src/data/polygon/iter.rs | Iter | fields=pub
impl<'a, T> Iter<'a, T> {
//@ fn src/data/polygon/iter.rs | Iterator for Iter<'a, T> | next
//@ ret r
//@ spec
    requires old(self).iter.obeys_prophetic_iter_laws()
    ensures
        final(self).iter.obeys_prophetic_iter_laws(),
        match r {
            None => old(self).iter.remaining().len() == 0,
            Some(x) => old(self).iter.remaining().len() > 0 && x == old(self).iter.remaining()[0] && final(self).iter.remaining() == old(self).iter.remaining().drop_first(),
        },
//@ end
}
//@ item src/data/polygon/iter.rs | IterMut | fields=pub
impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for IterMut<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.points) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a mut Point<T, 2>> { IteratorSpec::remaining(&self.points) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.points) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.points) }
    open spec fn peek(&self, i: int) -> Option<&'a mut Point<T, 2>> { IteratorSpec::peek(&self.points, i) }
}
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut Point<T, 2>;
//@ fn src/data/polygon/iter.rs | Iterator for IterMut<'a, T> | next
//@ end
}
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | iter_mut
//@ ret r
//@ spec
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::remaining(&r).len() == old(self).points@.len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == old(self).points@[i],
        same_shape(*old(self), *final(self)), forall|i: int| 0 <= i < r.remaining().len() ==> *final(r.remaining()[i]) == #[trigger] final(self).points@[i],
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | map_points
//@ ret r
//@ spec
    requires cl::<T>(), forall|p: Point<T, 2>| #[trigger] call_requires(f, (p,))
    ensures same_shape(self, r), forall|i: int| 0 <= i < self.points@.len() ==> call_ensures(f, (self.points@[i],), #[trigger] r.points@[i])
//@ loop 0 iter it
    invariant
        it.iter.obeys_prophetic_iter_laws(), forall|p: Point<T, 2>| #[trigger] call_requires(f, (p,)), cl::<T>(),
        forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (*it.seq()[i],), *final(#[trigger] it.seq()[i]))
//@ loop_top 0
    proof { let o = *pt; assert forall|q: Point<T, 2>| #[trigger] each_cloned(o, q) implies q == o by { assert(q.array@[0] == o.array@[0] && q.array@[1] == o.array@[1]); assert(q.array =~= o.array); } }
//@ end
}
} // verus!
