// Componentwise arithmetic of points and vectors, for every dimension and every number type.
use std::ops::{AddAssign, Index, IndexMut};
use vstd::std_specs::core::*;
verus! {
//@ item src/data/vector.rs | Vector | fields=pub
//@ item src/data/vector.rs | VectorView | fields=pub | attr=#[derive(Copy, Clone)]
//@ item src/data/point.rs | Point | fields=pub
pub trait NumOps<Rhs = Self, Output = Self>: Sized + Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + Mul<Rhs, Output = Output> + Div<Rhs, Output = Output> {}
// array_init: element i is what the closure answers for i
#[verifier::external_body]
pub fn array_init<T, F: FnMut(usize) -> T, const N: usize>(f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> #[trigger] f.requires((i,))
    ensures forall|i: int| 0 <= i < N ==> f.ensures((i as usize,), #[trigger] r@[i])
{ unimplemented!() }
// cloning a number gives the number
pub open spec fn cl<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
pub open spec fn adds<T: Add<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, n: int) -> bool { cl::<T>() && <T as AddSpec>::obeys_add_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).add_req(b[i]) }
pub open spec fn add_of<T: Add<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].add_spec(b[i]) }
pub open spec fn adds_by<T: Add<T, Output = T> + Clone>(a: Seq<T>, b: T, n: int) -> bool { cl::<T>() && <T as AddSpec>::obeys_add_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).add_req(b) }
pub open spec fn add_by<T: Add<T, Output = T> + Clone>(a: Seq<T>, b: T, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].add_spec(b) }
pub open spec fn subs<T: Sub<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, n: int) -> bool { cl::<T>() && <T as SubSpec>::obeys_sub_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).sub_req(b[i]) }
pub open spec fn sub_of<T: Sub<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].sub_spec(b[i]) }
pub open spec fn subs_by<T: Sub<T, Output = T> + Clone>(a: Seq<T>, b: T, n: int) -> bool { cl::<T>() && <T as SubSpec>::obeys_sub_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).sub_req(b) }
pub open spec fn sub_by<T: Sub<T, Output = T> + Clone>(a: Seq<T>, b: T, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].sub_spec(b) }
pub open spec fn muls<T: Mul<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, n: int) -> bool { cl::<T>() && <T as MulSpec>::obeys_mul_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).mul_req(b[i]) }
pub open spec fn mul_of<T: Mul<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].mul_spec(b[i]) }
pub open spec fn muls_by<T: Mul<T, Output = T> + Clone>(a: Seq<T>, b: T, n: int) -> bool { cl::<T>() && <T as MulSpec>::obeys_mul_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).mul_req(b) }
pub open spec fn mul_by<T: Mul<T, Output = T> + Clone>(a: Seq<T>, b: T, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].mul_spec(b) }
pub open spec fn divs<T: Div<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, n: int) -> bool { cl::<T>() && <T as DivSpec>::obeys_div_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).div_req(b[i]) }
pub open spec fn div_of<T: Div<T, Output = T> + Clone>(a: Seq<T>, b: Seq<T>, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].div_spec(b[i]) }
pub open spec fn divs_by<T: Div<T, Output = T> + Clone>(a: Seq<T>, b: T, n: int) -> bool { cl::<T>() && <T as DivSpec>::obeys_div_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).div_req(b) }
pub open spec fn div_by<T: Div<T, Output = T> + Clone>(a: Seq<T>, b: T, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].div_spec(b) }
pub open spec fn negs<T: Neg<Output = T> + Clone>(a: Seq<T>, n: int) -> bool { cl::<T>() && <T as NegSpec>::obeys_neg_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).neg_req() }
pub open spec fn neg_of<T: Neg<Output = T> + Clone>(a: Seq<T>, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == a[i].neg_spec() }
pub open spec fn aadds<T: AddAssign + Clone>(a: Seq<T>, b: Seq<T>, n: int) -> bool { cl::<T>() && <T as AddAssignSpec>::obeys_add_assign_spec() && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).add_assign_req(b[i]) }
pub open spec fn aadd_of<T: AddAssign + Clone>(a: Seq<T>, b: Seq<T>, r: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] r[i] == *a[i].add_assign_spec(b[i]) }
// &point + &vector
impl<'a, 'b, T, const N: usize> AddSpecImpl<&'a Vector<T, N>> for &'b Point<T, N> where T: Add<Output = T> + Clone {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: &'a Vector<T, N>) -> bool { adds(self.array@, other.0@, N as int) }
    open spec fn add_spec(self, other: &'a Vector<T, N>) -> Point<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Add<&'a Vector<T, N>> for &'b Point<T, N> where T: Add<Output = T> + Clone {
    type Output = Point<T, N>;
//@ fn src/data/point/add.rs | Add<&'a Vector<T, N>> for &'b Point<T, N> | add
//@ ret r
//@ spec
    ensures add_of(self.array@, other.0@, r.array@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.array@[i as int].add_spec(other.0@[i as int])
//@ end
}
// point + vector
impl<T, const N: usize> AddSpecImpl<Vector<T, N>> for Point<T, N> where T: Add<Output = T> + Clone {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: Vector<T, N>) -> bool { adds(self.array@, other.0@, N as int) }
    open spec fn add_spec(self, other: Vector<T, N>) -> Point<T, N> { arbitrary() }
}
impl<T, const N: usize> Add<Vector<T, N>> for Point<T, N> where T: Add<Output = T> + Clone {
    type Output = Point<T, N>;
//@ fn src/data/point/add.rs | Add<Vector<T, N>> for Point<T, N> | add
//@ ret r
//@ spec
    ensures add_of(self.array@, other.0@, r.array@, N as int)
//@ end
}
// point + &vector
impl<'a, T, const N: usize> AddSpecImpl<&'a Vector<T, N>> for Point<T, N> where T: Add<Output = T> + Clone {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: &'a Vector<T, N>) -> bool { adds(self.array@, other.0@, N as int) }
    open spec fn add_spec(self, other: &'a Vector<T, N>) -> Point<T, N> { arbitrary() }
}
impl<'a, T, const N: usize> Add<&'a Vector<T, N>> for Point<T, N> where T: Add<Output = T> + Clone {
    type Output = Point<T, N>;
//@ fn src/data/point/add.rs | Add<&Vector<T, N>> for Point<T, N> | add
//@ ret r
//@ spec
    ensures add_of(self.array@, other.0@, r.array@, N as int)
//@ end
}
// &point - &point
impl<'a, 'b, T, const N: usize> SubSpecImpl<&'a Point<T, N>> for &'b Point<T, N> where T: Sub<T, Output = T> + Clone {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: &'a Point<T, N>) -> bool { subs(self.array@, other.array@, N as int) }
    open spec fn sub_spec(self, other: &'a Point<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Sub<&'a Point<T, N>> for &'b Point<T, N> where T: Sub<T, Output = T> + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/point/sub.rs | Sub<&'a Point<T, N>> for &'b Point<T, N> | sub
//@ ret r
//@ spec
    ensures sub_of(self.array@, other.array@, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.array@[i as int].sub_spec(other.array@[i as int])
//@ end
}
// point - point
impl<T, const N: usize> SubSpecImpl<Point<T, N>> for Point<T, N> where T: Sub<T, Output = T> + Clone {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: Point<T, N>) -> bool { subs(self.array@, other.array@, N as int) }
    open spec fn sub_spec(self, other: Point<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<T, const N: usize> Sub<Point<T, N>> for Point<T, N> where T: Sub<T, Output = T> + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/point/sub.rs | Sub<Point<T, N>> for Point<T, N> | sub
//@ ret r
//@ spec
    ensures sub_of(self.array@, other.array@, r.0@, N as int)
//@ end
}
// vector + vector
impl<T, const N: usize> AddSpecImpl<Vector<T, N>> for Vector<T, N> where T: NumOps + Clone {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: Vector<T, N>) -> bool { adds(self.0@, other.0@, N as int) }
    open spec fn add_spec(self, other: Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<T, const N: usize> Add<Vector<T, N>> for Vector<T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/add.rs | Add<Vector<T, N>> for Vector<T, N> | add
//@ ret r
//@ spec
    ensures add_of(self.0@, other.0@, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].add_spec(other.0@[i as int])
//@ end
}
// &vector + &vector
impl<'a, 'b, T, const N: usize> AddSpecImpl<&'a Vector<T, N>> for &'b Vector<T, N> where T: NumOps + Clone {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: &'a Vector<T, N>) -> bool { adds(self.0@, other.0@, N as int) }
    open spec fn add_spec(self, other: &'a Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Add<&'a Vector<T, N>> for &'b Vector<T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/add.rs | Add<&Vector<T, N>> for &Vector<T, N> | add
//@ ret r
//@ spec
    ensures add_of(self.0@, other.0@, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].add_spec(other.0@[i as int])
//@ end
}
// view + view
impl<'a, T, const N: usize> AddSpecImpl<VectorView<'a, T, N>> for VectorView<'a, T, N> where T: NumOps + Clone {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: VectorView<'a, T, N>) -> bool { adds(self.0@, other.0@, N as int) }
    open spec fn add_spec(self, other: VectorView<'a, T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, T, const N: usize> Add<VectorView<'a, T, N>> for VectorView<'a, T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/add.rs | Add for VectorView<'a, T, N> | add
//@ ret r
//@ spec
    ensures add_of(self.0@, other.0@, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].add_spec(other.0@[i as int])
//@ end
}
// &vector - &vector
impl<'a, 'b, T, const N: usize> SubSpecImpl<&'a Vector<T, N>> for &'b Vector<T, N> where T: Sub<T, Output = T> + Clone {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: &'a Vector<T, N>) -> bool { subs(self.0@, other.0@, N as int) }
    open spec fn sub_spec(self, other: &'a Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Sub<&'a Vector<T, N>> for &'b Vector<T, N> where T: Sub<T, Output = T> + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/sub.rs | Sub<&'a Vector<T, N>> for &'b Vector<T, N> | sub
//@ ret r
//@ spec
    ensures sub_of(self.0@, other.0@, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].sub_spec(other.0@[i as int])
//@ end
}
// vector mul scalar
impl<T, const N: usize> MulSpecImpl<T> for Vector<T, N> where T: NumOps + Clone {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: T) -> bool { muls_by(self.0@, other, N as int) }
    open spec fn mul_spec(self, other: T) -> Vector<T, N> { arbitrary() }
}
impl<T, const N: usize> Mul<T> for Vector<T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/mul.rs | Mul<T> for Vector<T, N> | mul
//@ ret r
//@ spec
    ensures mul_by(self.0@, other, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].mul_spec(other)
//@ end
}
// view mul scalar
impl<'a, T, const N: usize> MulSpecImpl<T> for VectorView<'a, T, N> where T: NumOps + Clone {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: T) -> bool { muls_by(self.0@, other, N as int) }
    open spec fn mul_spec(self, other: T) -> Vector<T, N> { arbitrary() }
}
impl<'a, T, const N: usize> Mul<T> for VectorView<'a, T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/mul.rs | Mul<T> for VectorView<'_, T, N> | mul
//@ ret r
//@ spec
    ensures mul_by(self.0@, other, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].mul_spec(other)
//@ end
}
// vector div scalar
impl<T, const N: usize> DivSpecImpl<T> for Vector<T, N> where T: NumOps + Clone {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: T) -> bool { divs_by(self.0@, other, N as int) }
    open spec fn div_spec(self, other: T) -> Vector<T, N> { arbitrary() }
}
impl<T, const N: usize> Div<T> for Vector<T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/div.rs | Div<T> for Vector<T, N> | div
//@ ret r
//@ spec
    ensures div_by(self.0@, other, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].div_spec(other)
//@ end
}
// view div scalar
impl<'a, T, const N: usize> DivSpecImpl<T> for VectorView<'a, T, N> where T: NumOps + Clone {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: T) -> bool { divs_by(self.0@, other, N as int) }
    open spec fn div_spec(self, other: T) -> Vector<T, N> { arbitrary() }
}
impl<'a, T, const N: usize> Div<T> for VectorView<'a, T, N> where T: NumOps + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector/div.rs | Div<T> for VectorView<'_, T, N> | div
//@ ret r
//@ spec
    ensures div_by(self.0@, other, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].div_spec(other)
//@ end
}
// - vector
impl<T, const N: usize> NegSpecImpl for Vector<T, N> where T: NumOps + Neg<Output = T> + Clone {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { negs(self.0@, N as int) }
    open spec fn neg_spec(self) -> Vector<T, N> { arbitrary() }
}
impl<T, const N: usize> Neg for Vector<T, N> where T: NumOps + Neg<Output = T> + Clone {
    type Output = Vector<T, N>;
//@ fn src/data/vector.rs | Neg for Vector<T, N> | neg
//@ ret r
//@ spec
    ensures neg_of(self.0@, r.0@, N as int)
//@ closure 0
    -> (y: T) requires i < N ensures y == self.0@[i as int].neg_spec()
//@ end
}
// point += &vector, point += vector, vector += vector
impl<'a, T, const N: usize> AddAssignSpecImpl<&'a Vector<T, N>> for Point<T, N> where T: NumOps + Clone + AddAssign {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, other: &'a Vector<T, N>) -> bool { aadds(self.array@, other.0@, N as int) }
    open spec fn add_assign_spec(&self, other: &'a Vector<T, N>) -> &Point<T, N> { arbitrary() }
}
impl<'a, T, const N: usize> AddAssign<&'a Vector<T, N>> for Point<T, N> where T: NumOps + Clone + AddAssign {
//@ fn src/data/point/add.rs | AddAssign<&Vector<T, N>> for Point<T, N> | add_assign
//@ spec
    ensures aadd_of(old(self).array@, other.0@, final(self).array@, N as int)
//@ loop 0 iter it
    invariant
        aadds(old(self).array@, other.0@, N as int),
        forall|k: int| 0 <= k < it.index@ ==> #[trigger] self.array@[k] == *old(self).array@[k].add_assign_spec(other.0@[k]),
        forall|k: int| it.index@ <= k < N ==> #[trigger] self.array@[k] == old(self).array@[k],
//@ end
}
impl<T, const N: usize> AddAssignSpecImpl<Vector<T, N>> for Point<T, N> where T: NumOps + Clone + AddAssign {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, other: Vector<T, N>) -> bool { aadds(self.array@, other.0@, N as int) }
    open spec fn add_assign_spec(&self, other: Vector<T, N>) -> &Point<T, N> { arbitrary() }
}
impl<T, const N: usize> AddAssign<Vector<T, N>> for Point<T, N> where T: NumOps + Clone + AddAssign {
//@ fn src/data/point/add.rs | AddAssign<Vector<T, N>> for Point<T, N> | add_assign
//@ spec
    ensures aadd_of(old(self).array@, other.0@, final(self).array@, N as int)
//@ end
}
impl<T, const N: usize> AddAssignSpecImpl<Vector<T, N>> for Vector<T, N> where T: NumOps + Clone + AddAssign {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, other: Vector<T, N>) -> bool { aadds(self.0@, other.0@, N as int) }
    open spec fn add_assign_spec(&self, other: Vector<T, N>) -> &Vector<T, N> { arbitrary() }
}
impl<T, const N: usize> AddAssign<Vector<T, N>> for Vector<T, N> where T: NumOps + Clone + AddAssign {
//@ fn src/data/vector/add.rs | AddAssign<Vector<T, N>> for Vector<T, N> | add_assign
//@ spec
    ensures aadd_of(old(self).0@, other.0@, final(self).0@, N as int)
//@ loop 0 iter it
    invariant
        aadds(old(self).0@, other.0@, N as int),
        forall|k: int| 0 <= k < it.index@ ==> #[trigger] self.0@[k] == *old(self).0@[k].add_assign_spec(other.0@[k]),
        forall|k: int| it.index@ <= k < N ==> #[trigger] self.0@[k] == old(self).0@[k],
//@ end
}
impl<T, const N: usize> Vector<T, N> where T: Clone {
//@ fn src/data/vector.rs | impl Vector<T, N> | squared_magnitude
//@ ret r
//@ rewrite .map( =>> .vmap(
//@ spec
    requires cl::<T>(), <T as MulSpec>::obeys_mul_spec(), forall|i: int| 0 <= i < N ==> (#[trigger] self.0@[i]).mul_req(self.0@[i])
    ensures exists|s: Seq<T>| #[trigger] T::is_sum(s, r) && s.len() == N && forall|i: int| 0 <= i < N ==> #[trigger] s[i] == self.0@[i].mul_spec(self.0@[i])
//@ closure 0
    -> (y: T) requires (*elt).mul_req(*elt) ensures y == (*elt).mul_spec(*elt)
//@ end
//@ fn src/data/vector.rs | impl Vector<T, N> | map
//@ ret r
//@ spec
    requires cl::<T>(), forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] self.0@[i],))
    ensures forall|i: int| 0 <= i < N ==> call_ensures(f, (self.0@[i],), #[trigger] r.0@[i])
//@ closure 0
    -> (y: U) requires i < N ensures call_ensures(f, (self.0@[i as int],), y)
//@ end
//@ fn src/data/vector.rs | impl Vector<T, N> | cast
//@ ret r
//@ spec
    requires cl::<T>(), forall|t: T| #[trigger] call_requires(<T as Into<U>>::into, (t,))
    ensures forall|i: int| 0 <= i < N ==> call_ensures(<T as Into<U>>::into, (self.0@[i],), #[trigger] r.0@[i])
//@ closure 0
    -> (y: U) requires i < N ensures call_ensures(<T as Into<U>>::into, (self.0@[i as int],), y)
//@ end
}
impl<T, const N: usize> IndexSpecImpl<usize> for Vector<T, N> { open spec fn index_req(&self, index: &usize) -> bool { *index < N } }
impl<T, const N: usize> Index<usize> for Vector<T, N> {
    type Output = T;
//@ fn src/data/vector.rs | Index<usize> for Vector<T, N> | index
//@ ret r
//@ spec
    ensures *r == self.0@[index as int]
//@ end
}
impl<T, const N: usize> IndexSpecImpl<usize> for Point<T, N> { open spec fn index_req(&self, index: &usize) -> bool { *index < N } }
impl<T, const N: usize> Index<usize> for Point<T, N> {
    type Output = T;
//@ fn src/data/point.rs | Index<usize> for Point<T, N> | index
//@ ret r
//@ spec
    ensures *r == self.array@[key as int]
//@ end
}
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Point<T, N>> for Vector<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Point<T, N>) -> Self { Vector(v.array) }
}
impl<T, const N: usize> From<Point<T, N>> for Vector<T, N> {
//@ fn src/data/vector.rs | From<Point<T, N>> for Vector<T, N> | from
//@ ret r
//@ end
}
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Vector<T, N>> for Point<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vector<T, N>) -> Self { Point { array: v.0 } }
}
impl<T, const N: usize> From<Vector<T, N>> for Point<T, N> {
//@ fn src/data/point.rs | From<Vector<T, N>> for Point<T, N> | from
//@ ret r
//@ end
}
impl<'a, T, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a Point<T, N>> for VectorView<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Point<T, N>) -> Self { VectorView(&v.array) }
}
impl<'a, T, const N: usize> From<&'a Point<T, N>> for VectorView<'a, T, N> {
//@ fn src/data/vector.rs | From<&'a Point<T, N>> for VectorView<'a, T, N> | from
//@ ret r
//@ rewrite VectorView<'_, T, N> =>> VectorView<'a, T, N>
//@ rewrite point: &Point<T, N> =>> point: &'a Point<T, N>
//@ end
}
impl<T, const N: usize> Point<T, N> {
//@ fn src/data/point.rs | impl Point<T, N> | new
//@ ret r
//@ spec
    ensures r.array == array
//@ end
//@ fn src/data/point.rs | impl Point<T, N> | map
//@ ret r
//@ spec
    requires cl::<T>(), forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] self.array@[i],))
    ensures forall|i: int| 0 <= i < N ==> call_ensures(f, (self.array@[i],), #[trigger] r.array@[i])
//@ closure 0
    -> (y: U) requires i < N ensures call_ensures(f, (self.array@[i as int],), y)
//@ end
//@ fn src/data/point.rs | impl Point<T, N> | cast
//@ ret r
//@ spec
    requires cl::<T>(), forall|t: T| #[trigger] call_requires(<T as Into<U>>::into, (t,))
    ensures forall|i: int| 0 <= i < N ==> call_ensures(<T as Into<U>>::into, (self.array@[i],), #[trigger] r.array@[i])
//@ closure 0
    -> (y: U) requires i < N ensures call_ensures(<T as Into<U>>::into, (self.array@[i as int],), y)
//@ end
}
} // verus!
