// Iterator vocabulary: slice iterators seen as sequences of references.
pub mod itl { use vstd::prelude::*; verus! {
pub broadcast proof fn as_ref_ix<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger s.as_ref(), s[i]] *(s.as_ref()[i]) == s[i], s.as_ref().len() == s.len()
{ }
pub broadcast proof fn as_ref_len<T>(s: Seq<T>)
    ensures (#[trigger] s.as_ref()).len() == s.len()
{ }
} }
verus! {
broadcast use {itl::as_ref_ix, itl::as_ref_len};
}
// Iterator methods vstd has no contract for, under the contract their documentation states.
verus! {
pub use vstd::std_specs::iter::IteratorSpec;
pub trait Sum<A = Self>: Sized { spec fn is_sum(s: Seq<A>, r: Self) -> bool; }
pub open spec fn is_min<T, F: FnMut(&T, &T) -> Ordering>(f: F, s: Seq<T>, m: T) -> bool {
    exists|i: int| 0 <= i < s.len() && m == #[trigger] s[i] && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&m, &s[j]), o)
}
pub open spec fn is_max<T, F: FnMut(&T, &T) -> Ordering>(f: F, s: Seq<T>, m: T) -> bool {
    exists|i: int| 0 <= i < s.len() && m == #[trigger] s[i] && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> exists|o: Ordering| o != Ordering::Less && #[trigger] f.ensures((&m, &s[j]), o)
}
// stands for the adapter types vstd does not describe
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct VSome<B> { x: std::marker::PhantomData<B> }
impl<B> VSome<B> { pub uninterp spec fn seq(&self) -> Seq<B>; pub uninterp spec fn ends(&self) -> bool; }
impl<B> vstd::std_specs::iter::IteratorSpecImpl for VSome<B> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<B> { self.seq() }
    open spec fn will_return_none(&self) -> bool { self.ends() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<B> { if 0 <= i < self.seq().len() { Some(self.seq()[i]) } else { None } }
}
impl<B> Iterator for VSome<B> {
    type Item = B;
    #[verifier::external_body]
    fn next(&mut self) -> Option<B> { unimplemented!() }
}
// y is kept of some element of s; x is dropped or kept
pub open spec fn fm_from<A, B, F: FnMut(A) -> Option<B>>(f: F, s: Seq<A>, y: B) -> bool { exists|i: int| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), Some(y)) }
pub open spec fn fm_to<A, B, F: FnMut(A) -> Option<B>>(f: F, x: A, q: Seq<B>) -> bool { f.ensures((x,), None) || exists|k: int| 0 <= k < q.len() && f.ensures((x,), Some(#[trigger] q[k])) }
pub open spec fn at_(i: int) -> bool { true }
// y is an element of what f makes of some element of s; everything f makes of x is in q
#[verifier::prophetic]
pub open spec fn flat_from<A, B, U: Iterator<Item = B>, F: FnMut(A) -> U>(f: F, s: Seq<A>, y: B) -> bool { exists|i: int, u: U| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), u) && (#[trigger] u.remaining()).contains(y) }
#[verifier::prophetic]
pub open spec fn flat_to<A, B, U: Iterator<Item = B>, F: FnMut(A) -> U>(f: F, x: A, q: Seq<B>) -> bool { exists|u: U| f.ensures((x,), u) && u.will_return_none() && forall|m: int| 0 <= m < (#[trigger] u.remaining()).len() ==> q.contains(#[trigger] u.remaining()[m]) }
pub trait VIter: Iterator + Sized {
    // Iterator::map, re-exported with a verified contract (vstd's axiom about `map` is not instantiated for closures in generic functions)
    fn vmap<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures
            r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.remaining().len(), r.will_return_none() ==> self.will_return_none() && r.remaining().len() == self.remaining().len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> f.ensures((self.remaining()[i],), #[trigger] r.remaining()[i])
    { self.map(f) }
    #[verifier::external_body]
    fn vmin_by<F: FnMut(&Self::Item, &Self::Item) -> Ordering>(self, f: F) -> (r: Option<Self::Item>)
        requires cmp_preorder(f), self.obeys_prophetic_iter_laws()
        ensures self.will_return_none(), match r { None => self.remaining().len() == 0, Some(m) => is_min(f, self.remaining(), m) }
    { unimplemented!() }
    #[verifier::external_body]
    fn vmax_by<F: FnMut(&Self::Item, &Self::Item) -> Ordering>(self, f: F) -> (r: Option<Self::Item>)
        requires cmp_preorder(f), self.obeys_prophetic_iter_laws()
        ensures self.will_return_none(), match r { None => self.remaining().len() == 0, Some(m) => is_max(f, self.remaining(), m) }
    { unimplemented!() }
    #[verifier::external_body]
    fn vfilter_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: VSome<B>)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures
            r.obeys_prophetic_iter_laws(),
            forall|k: int| 0 <= k < r.remaining().len() ==> fm_from(f, self.remaining(), #[trigger] r.remaining()[k]),
            r.will_return_none() ==> self.will_return_none() && forall|i: int| 0 <= i < self.remaining().len() ==> fm_to(f, #[trigger] self.remaining()[i], r.remaining()),
    { unimplemented!() }
    // Iterator::map again, with the adapter's type left out (for closures that return an iterator)
    #[verifier::external_body]
    fn vmaps<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: VSome<B>)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures
            r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.remaining().len(), r.will_return_none() ==> self.will_return_none() && r.remaining().len() == self.remaining().len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> f.ensures((self.remaining()[i],), #[trigger] r.remaining()[i])
    { unimplemented!() }
    #[verifier::external_body]
    fn vflat_map<B, U: Iterator<Item = B>, F: FnMut(Self::Item) -> U>(self, f: F) -> (r: VSome<B>)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
            forall|i: int, u: U| 0 <= i < self.remaining().len() && f.ensures((#[trigger] self.remaining()[i],), u) ==> #[trigger] u.obeys_prophetic_iter_laws(),
        ensures
            r.obeys_prophetic_iter_laws(),
            forall|k: int| 0 <= k < r.remaining().len() ==> flat_from(f, self.remaining(), #[trigger] r.remaining()[k]),
            r.will_return_none() ==> self.will_return_none() && forall|i: int| #![trigger at_(i)] #![trigger self.remaining()[i]] 0 <= i < self.remaining().len() ==> flat_to(f, self.remaining()[i], r.remaining()),
    { unimplemented!() }
    #[verifier::external_body]
    fn vchain<U: Iterator<Item = Self::Item>>(self, other: U) -> (r: VSome<Self::Item>)
        requires self.obeys_prophetic_iter_laws(), other.obeys_prophetic_iter_laws()
        ensures
            r.obeys_prophetic_iter_laws(),
            r.remaining().len() <= self.remaining().len() ==> forall|k: int| 0 <= k < r.remaining().len() ==> #[trigger] r.remaining()[k] == self.remaining()[k],
            r.remaining().len() > self.remaining().len() ==> self.will_return_none() && r.remaining().len() <= self.remaining().len() + other.remaining().len()
                && forall|k: int| 0 <= k < r.remaining().len() ==> #[trigger] r.remaining()[k] == (self.remaining() + other.remaining())[k],
            r.will_return_none() ==> self.will_return_none() && other.will_return_none() && r.remaining() == self.remaining() + other.remaining(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vall<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < self.remaining().len() && f.ensures((#[trigger] self.remaining()[i],), false),
            r ==> self.will_return_none() && forall|i: int| 0 <= i < self.remaining().len() ==> f.ensures((#[trigger] self.remaining()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    fn vany<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self.remaining().len() && f.ensures((#[trigger] self.remaining()[i],), true),
            !r ==> self.will_return_none() && forall|i: int| 0 <= i < self.remaining().len() ==> f.ensures((#[trigger] self.remaining()[i],), false),
    { unimplemented!() }
    // Iterator::enumerate
    #[verifier::external_body]
    fn venumerate(self) -> (r: VSome<(usize, Self::Item)>)
        requires self.obeys_prophetic_iter_laws()
        ensures
            r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.remaining().len(), r.will_return_none() ==> self.will_return_none() && r.remaining().len() == self.remaining().len(),
            forall|i: int| #![trigger r.remaining()[i]] #![trigger self.remaining()[i]] 0 <= i < r.remaining().len() ==> r.remaining()[i].0 as int == i && r.remaining()[i].1 == self.remaining()[i],
    { unimplemented!() }
    #[verifier::external_body]
    fn vsum<S: Sum<Self::Item>>(self) -> (r: S)
        requires self.obeys_prophetic_iter_laws()
        ensures self.will_return_none(), S::is_sum(self.remaining(), r)
    { unimplemented!() }
}
impl<I: Iterator> VIter for I {}
} // verus!
