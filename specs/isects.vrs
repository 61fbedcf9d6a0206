// Sets of intersections between index edges: a slot store and one doubly linked list per edge.
#[allow(unused_imports)] use vstd::std_specs::core::*;
#[allow(unused_imports)] use std::ops::{Index, IndexMut};
verus! {
pub open spec fn ole(o: Ordering, p: Ordering) -> Ordering { if o == Ordering::Equal { p } else { o } }
// the orderings the crate derives: by fields, in order of declaration
pub open spec fn ecmp(a: IndexEdge, b: IndexEdge) -> Ordering { ole(icmp(a.min.0 as int, b.min.0 as int), icmp(a.max.0 as int, b.max.0 as int)) }
impl PartialOrdSpecImpl for IndexEdge {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(ecmp(*self, *other)) }
}
impl PartialOrd for IndexEdge { #[verifier::external_body] fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for IndexEdge {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { ecmp(*self, *other) }
}
impl Ord for IndexEdge { #[verifier::external_body] fn cmp(&self, other: &Self) -> Ordering { unimplemented!() } }
//@ item src/data/intersection_set.rs | IndexIntersection | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
impl IndexIntersection {
//@ fn src/data/intersection_set.rs | impl IndexIntersection | new
//@ ret r
//@ spec
    ensures
        (r.min == a && r.max == b) || (r.min == b && r.max == a), ecmp(r.min, r.max) != Ordering::Greater,
        ecmp(a, b) != Ordering::Greater ==> r.min == a && r.max == b,
//@ end
}
// rand's generator: gen_range panics on an empty range, and otherwise returns a member of it
pub trait Rng {
    fn gen_range(&mut self, range: std::ops::Range<usize>) -> (r: usize) requires range.start < range.end ensures range.start <= r < range.end;
}
pub type SparseIndex = usize;
pub type Dense = usize;
pub type Sparse = usize;
//@ item src/utils.rs | SparseVec | fields=pub
//@ item src/utils.rs | DenseCollection | fields=pub
// the iterator's elements, in order, are (as far as it is asked) those of s, and if it says it ends, all of them
#[verifier::prophetic]
pub open spec fn its<I: Iterator>(r: I, s: Seq<I::Item>) -> bool {
    r.obeys_prophetic_iter_laws() && r.remaining().len() <= s.len() && (r.will_return_none() ==> r.remaining().len() == s.len()) && forall|i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == s[i]
}
impl DenseCollection {
    pub open spec fn v(&self) -> Seq<usize> { self.dense@ }
    // dense_rev says where every stored element is
    pub open spec fn ok(&self) -> bool {
        &&& self.v().no_duplicates()
        &&& forall|i: int| 0 <= i < self.v().len() ==> (#[trigger] self.v()[i]) < self.dense_rev@.len() && self.dense_rev@[self.v()[i] as int] == i
    }
    pub open spec fn d(&self) -> Set<usize> { self.v().to_set() }
//@ fn src/utils.rs | impl DenseCollection | new
//@ ret r
//@ spec
    ensures r.ok(), r.v() == Seq::<usize>::empty()
//@ end
//@ fn src/utils.rs | impl DenseCollection | push
//@ spec
    requires old(self).ok(), !old(self).v().contains(elt), elt < usize::MAX
    ensures final(self).ok(), final(self).v() == old(self).v().push(elt)
//@ end
//@ fn src/utils.rs | impl DenseCollection | remove
//@ spec
    requires old(self).ok(), old(self).v().contains(elt)
    ensures final(self).ok(), final(self).d() == old(self).d().remove(elt)
//@ bottom
    proof {
        let (s, t) = (old(self).v(), self.v());
        let k = choose|k: int| 0 <= k < s.len() && s[k] == elt;
        assert(t =~= s.update(k, s.last()).drop_last());
        assert forall|x: usize| t.contains(x) == (s.contains(x) && x != elt) by {
            if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i == k { assert(s[s.len() - 1] == x); } else { assert(s[i] == x); } }
            if s.contains(x) && x != elt { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i == s.len() - 1 { assert(t[k] == x); } else { assert(t[i] == x); } }
        }
        assert(final(self).d() =~= old(self).d().remove(elt));
    }
//@ end
//@ fn src/utils.rs | impl DenseCollection | random
//@ ret r
//@ rewrite + ?Sized =>>
//@ spec
    ensures match r { Some(x) => self.v().contains(x), None => self.v().len() == 0 }
//@ end
//@ fn src/utils.rs | impl DenseCollection | iter
//@ ret r
//@ rewrite .copied() =>> .vmap(|x: &usize| -> (y: usize) ensures y == *x { *x })
//@ spec
    ensures its(r, self.v())
//@ end
}
impl<T> SparseVec<T> {
    pub open spec fn ok(&self) -> bool {
        &&& self.dense.ok() && self.free@.no_duplicates()
        &&& forall|i: int| 0 <= i < self.dense.v().len() ==> #[trigger] self.dense.v()[i] < self.arr@.len()
        &&& forall|i: int| 0 <= i < self.free@.len() ==> #[trigger] self.free@[i] < self.arr@.len() && !self.dense.v().contains(self.free@[i])
    }
    // the slots in use
    pub open spec fn d(&self) -> Set<usize> { self.dense.d() }
}
impl<T: Copy + Default> IndexSpecImpl<SparseIndex> for SparseVec<T> {
    open spec fn index_req(&self, index: &SparseIndex) -> bool { *index < self.arr@.len() }
}
impl<T: Copy + Default> Index<SparseIndex> for SparseVec<T> {
    type Output = T;
//@ fn src/utils.rs | Index<SparseIndex> for SparseVec<T> | index
//@ ret r
//@ spec
    ensures *r == self.arr@[index as int]
//@ end
}
impl<T: Copy + Default> IndexMut<SparseIndex> for SparseVec<T> {
//@ fn src/utils.rs | IndexMut<SparseIndex> for SparseVec<T> | index_mut
//@ ret r
//@ spec
    ensures *r == old(self).arr@[index as int], final(self).arr@ == old(self).arr@.update(index as int, *final(r)), final(self).dense == old(self).dense, final(self).free == old(self).free
//@ end
}
impl<T: Copy + Default> SparseVec<T> {
// the same function where the slot need not exist yet
//@ fn src/utils.rs | IndexMut<SparseIndex> for SparseVec<T> | index_mut | rename=index_mut_grow
//@ ret r
//@ spec
    requires index <= old(self).arr@.len(), index < usize::MAX
    ensures
        final(self).dense == old(self).dense, final(self).free == old(self).free,
        final(self).arr@ == if index < old(self).arr@.len() { old(self).arr@.update(index as int, *final(r)) } else { old(self).arr@.push(*final(r)) }
//@ end
//@ fn src/utils.rs | impl SparseVec<T> | new
//@ ret r
//@ spec
    ensures r.ok(), r.d() == Set::<usize>::empty(), r.arr@.len() == 0
//@ tail res
    proof { assert(res.d() =~= Set::<usize>::empty()); }
//@ end
//@ fn src/utils.rs | impl SparseVec<T> | alloc
//@ ret r
//@ spec
    requires old(self).ok(), old(self).arr@.len() < usize::MAX
    ensures
        final(self).arr == old(self).arr, final(self).dense.ok(), final(self).dense.v() == old(self).dense.v().push(r), !old(self).dense.v().contains(r),
        r == (if old(self).free@.len() > 0 { old(self).free@.last() } else { old(self).arr@.len() as usize }),
        final(self).free@ == (if old(self).free@.len() > 0 { old(self).free@.drop_last() } else { old(self).free@ })
//@ end
//@ fn src/utils.rs | impl SparseVec<T> | push
//@ ret r
//@ rewrite self[idx] = elt =>> *self.index_mut_grow(idx) = elt
//@ spec
    requires old(self).ok(), old(self).arr@.len() < usize::MAX
    ensures
        final(self).ok(), !old(self).d().contains(r), final(self).d() == old(self).d().insert(r), r < final(self).arr@.len() <= old(self).arr@.len() + 1,
        final(self).arr@[r as int] == elt, forall|x: int| 0 <= x < old(self).arr@.len() && x != r ==> final(self).arr@[x] == #[trigger] old(self).arr@[x], final(self).arr@.len() >= old(self).arr@.len()
//@ tail res
    proof {
        let (s, t) = (old(self).dense.v(), self.dense.v());
        assert forall|x: usize| t.contains(x) == (s.contains(x) || x == idx) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
            assert(t[s.len() as int] == idx);
        }
        assert(self.d() =~= old(self).d().insert(idx));
    }
//@ end
//@ fn src/utils.rs | impl SparseVec<T> | remove
//@ ret r
//@ spec
    requires old(self).ok(), old(self).d().contains(idx)
    ensures final(self).ok(), final(self).d() == old(self).d().remove(idx), r == old(self).arr@[idx as int], final(self).arr@.len() == old(self).arr@.len(), forall|x: int| 0 <= x < old(self).arr@.len() && x != idx ==> final(self).arr@[x] == #[trigger] old(self).arr@[x]
//@ tail res
    proof {
        let (f, g) = (old(self).free@, self.free@);
        assert(g =~= f.push(idx));
        assert forall|x: usize| self.dense.v().contains(x) implies old(self).dense.v().contains(x) && x != idx by { assert(self.d().contains(x)); assert(old(self).d().contains(x)); }
        assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] < self.arr@.len() && !self.dense.v().contains(g[i]) by { if i < f.len() { assert(f[i] == g[i]); } }
        assert forall|i: int| 0 <= i < self.dense.v().len() implies #[trigger] self.dense.v()[i] < self.arr@.len() by {
            assert(old(self).dense.v().contains(self.dense.v()[i])); }
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by { if j == f.len() { assert(f[i] == g[i]); } else { assert(f[i] == g[i] && f[j] == g[j]); } }
    }
//@ end
//@ fn src/utils.rs | impl SparseVec<T> | iter
//@ ret r
//@ rewrite .map( =>> .vmap(
//@ spec
    requires self.ok()
    ensures r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.dense.v().len(), r.will_return_none() ==> r.remaining().len() == self.dense.v().len(), forall|i: int| 0 <= i < r.remaining().len() ==> *#[trigger] r.remaining()[i] == self.arr@[self.dense.v()[i] as int]
//@ closure 0
    -> (y: &T) requires idx < self.arr@.len() ensures *y == self.arr@[idx as int]
//@ end
//@ fn src/utils.rs | impl SparseVec<T> | random
//@ ret r
//@ rewrite + ?Sized =>>
//@ spec
    ensures match r { Some(x) => self.d().contains(x), None => self.d() == Set::<usize>::empty() }
//@ tail res
    proof { if res is None { assert(self.d() =~= Set::<usize>::empty()); } }
//@ end
}

// ---- the two edges of an entry, each with its place in that edge's list
//@ item src/data/intersection_set.rs | Isect | fields=pub | attr=#[derive(Copy, Clone)]
//@ item src/data/intersection_set.rs | IsectEdge | fields=pub | attr=#[derive(Copy, Clone)]
//@ item src/data/intersection_set.rs | IndexIntersectionSet | fields=pub
pub open spec fn ie(x: IsectEdge) -> IndexEdge { IndexEdge { min: x.vertex0, max: x.vertex1 } }
pub open spec fn has_edge(i: Isect, e: IndexEdge) -> bool { ie(i.edge0) == e || ie(i.edge1) == e }
pub open spec fn node(i: Isect, e: IndexEdge) -> IsectEdge { if ie(i.edge0) == e { i.edge0 } else { i.edge1 } }
pub open spec fn with_node(i: Isect, e: IndexEdge, x: IsectEdge) -> Isect { if ie(i.edge0) == e { Isect { edge0: x, edge1: i.edge1 } } else { Isect { edge0: i.edge0, edge1: x } } }
impl PartialEqSpecImpl<IndexEdge> for IsectEdge {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &IndexEdge) -> bool { ie(*self) == *other }
}
impl PartialEq<IndexEdge> for IsectEdge {
//@ fn src/data/intersection_set.rs | PartialEq<IndexEdge> for IsectEdge | eq | probe=no
//@ end
}
impl PartialEqSpecImpl for IsectEdge {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { ie(*self) == ie(*other) }
}
impl PartialEq for IsectEdge {
//@ fn src/data/intersection_set.rs | PartialEq for IsectEdge | eq | probe=no
//@ end
}
impl IsectEdge {
//@ fn src/data/intersection_set.rs | impl IsectEdge | new
//@ ret r
//@ spec
    ensures ie(r) == edge, r.next is None, r.prev is None
//@ end
}
impl Isect {
//@ fn src/data/intersection_set.rs | impl Isect | new
//@ ret r
//@ spec
    ensures ie(r.edge0) == intersection.min, ie(r.edge1) == intersection.max, r.edge0.next is None, r.edge0.prev is None, r.edge1.next is None, r.edge1.prev is None
//@ end
}
impl PointId { pub const INVALID: PointId = PointId(usize::MAX); }
impl Default for Isect {
//@ fn src/data/intersection_set.rs | Default for Isect | default | probe=no
//@ end
}
impl IndexSpecImpl<IndexEdge> for Isect { open spec fn index_req(&self, index: &IndexEdge) -> bool { has_edge(*self, *index) } }
impl Index<IndexEdge> for Isect {
    type Output = IsectEdge;
//@ fn src/data/intersection_set.rs | Index<IndexEdge> for Isect | index
//@ ret r
//@ spec
    ensures *r == node(*self, index)
//@ end
}
impl IndexMut<IndexEdge> for Isect {
//@ fn src/data/intersection_set.rs | IndexMut<IndexEdge> for Isect | index_mut
//@ ret r
//@ spec
    ensures *r == node(*old(self), index), *final(self) == with_node(*old(self), index, *final(r))
//@ end
}
impl IndexSpecImpl<IsectEdge> for Isect { open spec fn index_req(&self, index: &IsectEdge) -> bool { has_edge(*self, ie(*index)) } }
impl Index<IsectEdge> for Isect {
    type Output = IsectEdge;
//@ fn src/data/intersection_set.rs | Index<IsectEdge> for Isect | index
//@ ret r
//@ spec
    ensures *r == node(*self, ie(index))
//@ end
}
impl IndexMut<IsectEdge> for Isect {
//@ fn src/data/intersection_set.rs | IndexMut<IsectEdge> for Isect | index_mut
//@ ret r
//@ spec
    ensures *r == node(*old(self), ie(index)), *final(self) == with_node(*old(self), ie(index), *final(r))
//@ end
}
impl vstd::std_specs::convert::FromSpecImpl<IsectEdge> for IndexEdge {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: IsectEdge) -> Self { ie(v) }
}
impl From<IsectEdge> for IndexEdge {
//@ fn src/data/intersection_set.rs | From<IsectEdge> for IndexEdge | from
//@ ret r
//@ spec
    ensures e.vertex0.0 <= e.vertex1.0 ==> r == ie(e)
//@ end
}

// ---- the set
pub open spec fn evalid(e: IndexEdge, n: int) -> bool { e.min.0 < e.max.0 < n }
pub open spec fn slot(e: IndexEdge, n: int) -> int { e.max.0 + n * e.min.0 }
pub open spec fn iok(i: Isect, n: int) -> bool { evalid(ie(i.edge0), n) && evalid(ie(i.edge1), n) && ecmp(ie(i.edge0), ie(i.edge1)) == Ordering::Less }
// s lists exactly the used slots that have the edge e, in the order of the links
pub open spec fn cnode(a: Seq<Isect>, e: IndexEdge, s: Seq<usize>, i: int) -> bool {
    &&& s[i] < a.len() && has_edge(a[s[i] as int], e)
    &&& node(a[s[i] as int], e).next == (if i + 1 < s.len() { Some(s[i + 1]) } else { None })
    &&& node(a[s[i] as int], e).prev == (if i > 0 { Some(s[i - 1]) } else { None })
}
pub open spec fn good(a: Seq<Isect>, d: Set<usize>, head: Option<usize>, e: IndexEdge, s: Seq<usize>) -> bool {
    &&& s.no_duplicates() && head == (if s.len() > 0 { Some(s[0]) } else { None })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] cnode(a, e, s, i)
    &&& forall|x: usize| s.contains(x) <==> #[trigger] d.contains(x) && has_edge(a[x as int], e)
}
pub open spec fn listed(a: Seq<Isect>, d: Set<usize>, h: Seq<Option<usize>>, n: int, e: IndexEdge) -> bool { exists|s: Seq<usize>| #[trigger] good(a, d, h[slot(e, n)], e, s) }
pub open spec fn pairs_ok(a: Seq<Isect>, d: Set<usize>, n: int) -> bool { forall|x: usize| #[trigger] d.contains(x) ==> x < a.len() && iok(a[x as int], n) }
// the intersection stored in a slot
pub open spec fn pair(i: Isect) -> (IndexEdge, IndexEdge) { (ie(i.edge0), ie(i.edge1)) }
pub open spec fn same_pairs(a: Seq<Isect>, b: Seq<Isect>, d: Set<usize>) -> bool { forall|x: usize| #[trigger] d.contains(x) ==> pair(a[x as int]) == pair(b[x as int]) }
impl IndexIntersectionSet {
    pub open spec fn a(&self) -> Seq<Isect> { self.by_idx.arr@ }
    pub open spec fn d(&self) -> Set<usize> { self.by_idx.d() }
    pub open spec fn n(&self) -> int { self.vertices as int }
    pub open spec fn shape(&self) -> bool { self.by_idx.ok() && self.by_edge@.len() == self.n() * (self.n() - 1) && pairs_ok(self.a(), self.d(), self.n()) }
    pub open spec fn wf(&self) -> bool { self.shape() && forall|e: IndexEdge| #[trigger] evalid(e, self.n()) ==> listed(self.a(), self.d(), self.by_edge@, self.n(), e) }
}
// the set of pairs the structure stands for
pub open spec fn held(s: IndexIntersectionSet, e: IndexEdge, f: IndexEdge) -> bool { exists|x: usize| #[trigger] s.d().contains(x) && pair(s.a()[x as int]) == (e, f) }
mod isp { #[allow(unused_imports)] use super::*;
verus! {
pub proof fn slots(e: IndexEdge, n: int)
    requires evalid(e, n)
    ensures 0 <= slot(e, n) < n * (n - 1), slot(e, n) <= usize::MAX || n * (n - 1) > usize::MAX
{
    assert(n * e.min.0 <= n * (n - 2)) by (nonlinear_arith) requires e.min.0 <= n - 2, n >= 2;
    assert(n * e.min.0 >= 0) by (nonlinear_arith) requires e.min.0 >= 0, n >= 2;
    assert(n * (n - 2) + n == n * (n - 1)) by (nonlinear_arith);
}
// a fresh entry x, whose list for e is not linked yet, goes to the front
pub proof fn front(a: Seq<Isect>, b: Seq<Isect>, d: Set<usize>, h: Option<usize>, e: IndexEdge, s: Seq<usize>, x: usize)
    requires
        good(a, d.remove(x), h, e, s), d.contains(x), a.len() == b.len(), x < a.len(), has_edge(a[x as int], e), node(a[x as int], e).prev is None, node(a[x as int], e).next is None,
        forall|y: usize| #[trigger] d.contains(y) ==> y < a.len() && pair(a[y as int]) == pair(b[y as int]) && ie(a[y as int].edge0) != ie(a[y as int].edge1),
        forall|y: usize| #[trigger] d.contains(y) && y != x && Some(y) != h && has_edge(a[y as int], e) ==> node(b[y as int], e) == node(a[y as int], e),
        node(b[x as int], e) == (IsectEdge { next: h, ..node(a[x as int], e) }),
        h is Some ==> node(b[h->0 as int], e) == (IsectEdge { prev: Some(x), ..node(a[h->0 as int], e) }),
    ensures good(b, d, Some(x), e, seq![x] + s)
{
    let t = seq![x] + s;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != x && d.contains(s[i]) by { assert(s.contains(s[i])); assert(d.remove(x).contains(s[i])); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] cnode(b, e, t, i) by {
        if i == 0 { assert(t[0] == x); if s.len() > 0 { assert(t[1] == s[0]); } }
        else { assert(t[i] == s[i - 1]); assert(cnode(a, e, s, i - 1)); if i > 1 { assert(t[i - 1] == s[i - 2]); assert(s[0] != s[i - 1]); } if i + 1 < t.len() { assert(t[i + 1] == s[i]); } }
    }
    assert forall|y: usize| t.contains(y) <==> #[trigger] d.contains(y) && has_edge(b[y as int], e) by {
        if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i > 0 { assert(t[i] == s[i - 1]); assert(s.contains(y)); assert(d.remove(x).contains(y)); } }
        if d.contains(y) && has_edge(b[y as int], e) { if y == x { assert(t[0] == x); } else { assert(d.remove(x).contains(y)); assert(s.contains(y)); let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i + 1] == y); } }
    }
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { if i == 0 { assert(s[j - 1] != x); } else { assert(s[i - 1] != s[j - 1]); } } }
}
pub proof fn nofresh(a: Seq<Isect>, d: Set<usize>, h: Option<usize>, e: IndexEdge, s: Seq<usize>, x: usize)
    requires good(a, d.remove(x), h, e, s), !has_edge(a[x as int], e), x < a.len()
    ensures good(a, d, h, e, s)
{
    assert forall|y: usize| s.contains(y) <==> #[trigger] d.contains(y) && has_edge(a[y as int], e) by { assert(d.remove(x).contains(y) == (d.contains(y) && y != x)); }
}
pub proof fn dropped(a: Seq<Isect>, b: Seq<Isect>, d: Set<usize>, h: Option<usize>, e: IndexEdge, s: Seq<usize>, x: usize)
    requires good(a, d, h, e, s), !has_edge(a[x as int], e), a.len() == b.len(), forall|y: usize| #[trigger] d.contains(y) && y != x ==> b[y as int] == a[y as int]
    ensures good(b, d.remove(x), h, e, s)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] cnode(b, e, s, i) by { assert(cnode(a, e, s, i)); assert(s.contains(s[i])); assert(d.contains(s[i])); }
    assert forall|y: usize| s.contains(y) <==> #[trigger] d.remove(x).contains(y) && has_edge(b[y as int], e) by { assert(d.remove(x).contains(y) == (d.contains(y) && y != x)); assert(s.contains(y) <==> d.contains(y) && has_edge(a[y as int], e)); }
}
// the entry x (whose contents were r) is gone from the store; its neighbours in the list for e are linked to each other
pub proof fn unlinked(a: Seq<Isect>, b: Seq<Isect>, d: Set<usize>, h: Option<usize>, g: Option<usize>, e: IndexEdge, s: Seq<usize>, x: usize, r: Isect)
    requires
        good(a.update(x as int, r), d.insert(x), h, e, s), !d.contains(x), x < a.len(), has_edge(r, e), a.len() == b.len(),
        forall|y: usize| #[trigger] d.contains(y) ==> y < a.len() && pair(a[y as int]) == pair(b[y as int]),
        ({  let (p, q) = (node(r, e).prev, node(r, e).next);
            &&& g == (if p is None { q } else { h })
            &&& forall|y: usize| #[trigger] d.contains(y) && has_edge(a[y as int], e) ==> node(b[y as int], e) == (IsectEdge { next: if p == Some(y) { q } else { node(a[y as int], e).next }, prev: if q == Some(y) { p } else { node(a[y as int], e).prev }, ..node(a[y as int], e) }) })
    ensures exists|t: Seq<usize>| good(b, d, g, e, t)
{
    let u = a.update(x as int, r);
    assert(d.insert(x).contains(x)); assert(s.contains(x));
    let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
    let t = s.remove(k);
    assert(cnode(u, e, s, k));
    assert forall|i: int| 0 <= i < s.len() && i != k implies d.contains(#[trigger] s[i]) && s[i] != x by { assert(s.contains(s[i])); assert(d.insert(x).contains(s[i])); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] cnode(b, e, t, i) by {
        let j = if i < k { i } else { i + 1 };
        assert(t[i] == s[j] && d.contains(s[j])); assert(cnode(u, e, s, j));
        if i + 1 < t.len() { assert(t[i + 1] == if i + 1 < k { s[i + 1] } else { s[i + 2] }); }
        if i > 0 { assert(t[i - 1] == if i - 1 < k { s[i - 1] } else { s[i] }); }
        if k > 0 && j != k - 1 { assert(s[j] != s[k - 1]); }
        if k + 1 < s.len() && j != k + 1 { assert(s[j] != s[k + 1]); }
    }
    assert forall|y: usize| t.contains(y) <==> #[trigger] d.contains(y) && has_edge(b[y as int], e) by {
        if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; let j = if i < k { i } else { i + 1 }; assert(s[j] == y); assert(s.contains(y)); assert(d.insert(x).contains(y)); }
        if d.contains(y) && has_edge(b[y as int], e) { assert(d.insert(x).contains(y)); assert(has_edge(u[y as int], e)); assert(s.contains(y)); let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(j != k); let i = if j < k { j } else { j - 1 }; assert(t[i] == y); }
    }
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { let (p, q) = (if i < k { i } else { i + 1 }, if j < k { j } else { j + 1 }); assert(s[p] != s[q]); } }
    assert(t.len() > 0 ==> t[0] == if k == 0 { s[1] } else { s[0] });
    assert(good(b, d, g, e, t));
}
pub proof fn slot_inj(e: IndexEdge, f: IndexEdge, n: int)
    requires evalid(e, n), evalid(f, n), slot(e, n) == slot(f, n)
    ensures e == f
{
    let (a, b) = (e.min.0 as int, f.min.0 as int);
    if a < b { assert(n * b >= n * a + n) by (nonlinear_arith) requires b >= a + 1, n >= 0; }
    if b < a { assert(n * a >= n * b + n) by (nonlinear_arith) requires a >= b + 1, n >= 0; }
}
pub proof fn pushed(s: IndexIntersectionSet, t: IndexIntersectionSet, x: usize, a: IndexEdge, b: IndexEdge)
    requires t.d() == s.d().insert(x), pair(t.a()[x as int]) == (a, b), same_pairs(s.a(), t.a(), s.d())
    ensures forall|e: IndexEdge, f: IndexEdge| #[trigger] held(t, e, f) == (held(s, e, f) || (e == a && f == b))
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] held(t, e, f) == (held(s, e, f) || (e == a && f == b)) by {
        if held(s, e, f) { let y = choose|y: usize| #[trigger] s.d().contains(y) && pair(s.a()[y as int]) == (e, f); assert(t.d().contains(y)); }
        if e == a && f == b { assert(t.d().contains(x)); }
        if held(t, e, f) { let y = choose|y: usize| #[trigger] t.d().contains(y) && pair(t.a()[y as int]) == (e, f); if y != x { assert(s.d().contains(y)); } }
    }
}
pub proof fn purged(s: IndexIntersectionSet, t: IndexIntersectionSet, k: IndexEdge)
    requires same_pairs(s.a(), t.a(), t.d()), forall|x: usize| #[trigger] t.d().contains(x) <==> s.d().contains(x) && !has_edge(s.a()[x as int], k)
    ensures forall|e: IndexEdge, f: IndexEdge| #[trigger] held(t, e, f) == (held(s, e, f) && e != k && f != k)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] held(t, e, f) == (held(s, e, f) && e != k && f != k) by {
        if held(s, e, f) && e != k && f != k { let y = choose|y: usize| #[trigger] s.d().contains(y) && pair(s.a()[y as int]) == (e, f); assert(t.d().contains(y)); }
        if held(t, e, f) { let y = choose|y: usize| #[trigger] t.d().contains(y) && pair(t.a()[y as int]) == (e, f); assert(s.d().contains(y)); }
    }
}
// an entry of slot j changed its links for the edge f only: other lists are as before
pub proof fn other(a: Seq<Isect>, b: Seq<Isect>, d: Set<usize>, h: Option<usize>, e: IndexEdge, s: Seq<usize>)
    requires good(a, d, h, e, s), a.len() == b.len(), forall|x: usize| #[trigger] d.contains(x) ==> has_edge(b[x as int], e) == has_edge(a[x as int], e) && (has_edge(a[x as int], e) ==> node(b[x as int], e) == node(a[x as int], e))
    ensures good(b, d, h, e, s)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] cnode(b, e, s, i) by { assert(cnode(a, e, s, i)); assert(s.contains(s[i])); assert(d.contains(s[i])); }
}
}
}
impl IndexSpecImpl<IndexEdge> for IndexIntersectionSet {
    open spec fn index_req(&self, index: &IndexEdge) -> bool { evalid(*index, self.n()) && self.by_edge@.len() == self.n() * (self.n() - 1) }
}
impl Index<IndexEdge> for IndexIntersectionSet {
    type Output = Option<SparseIndex>;
//@ fn src/data/intersection_set.rs | Index<IndexEdge> for IndexIntersectionSet | index
//@ ret r
//@ spec
    ensures *r == self.by_edge@[slot(index, self.n())]
//@ top
    proof { isp::slots(index, self.n()); assert(self.by_edge@.len() == self.by_edge.len()); }
//@ end
}
impl IndexMut<IndexEdge> for IndexIntersectionSet {
//@ fn src/data/intersection_set.rs | IndexMut<IndexEdge> for IndexIntersectionSet | index_mut
//@ ret r
//@ spec
    ensures *r == old(self).by_edge@[slot(index, old(self).n())], final(self).by_edge@ == old(self).by_edge@.update(slot(index, old(self).n()), *final(r)), final(self).vertices == old(self).vertices, final(self).by_idx == old(self).by_idx
//@ top
    proof { isp::slots(index, self.n()); assert(self.by_edge@.len() == self.by_edge.len()); }
//@ end
}
impl IndexIntersectionSet {
//@ fn src/data/intersection_set.rs | impl IndexIntersectionSet | new
//@ ret r
//@ spec
    requires vertices * (vertices - 1) <= usize::MAX
    ensures r.wf(), r.n() == vertices, r.d() == Set::<usize>::empty(), forall|e: IndexEdge, f: IndexEdge| !#[trigger] held(r, e, f)
//@ tail res
    proof {
        assert forall|e: IndexEdge| #[trigger] evalid(e, res.n()) implies listed(res.a(), res.d(), res.by_edge@, res.n(), e) by {
            isp::slots(e, res.n());
            assert(good(res.a(), res.d(), res.by_edge@[slot(e, res.n())], e, Seq::<usize>::empty()));
        }
    }
//@ end

//@ fn src/data/intersection_set.rs | impl IndexIntersectionSet | push
//@ spec
    requires old(self).wf(), old(self).a().len() < usize::MAX, evalid(isect.min, old(self).n()), evalid(isect.max, old(self).n()), ecmp(isect.min, isect.max) == Ordering::Less
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).a().len() <= old(self).a().len() + 1,
        exists|x: usize| !old(self).d().contains(x) && final(self).d() == old(self).d().insert(x) && #[trigger] pair(final(self).a()[x as int]) == (isect.min, isect.max),
        same_pairs(old(self).a(), final(self).a(), old(self).d()),
        forall|e: IndexEdge, f: IndexEdge| #[trigger] held(*final(self), e, f) == (held(*old(self), e, f) || (e == isect.min && f == isect.max)),
//@ after_stmt let idx =
    let ghost s1 = *self;
    proof {
        assert(s1.d().remove(idx) =~= old(self).d());
        assert forall|e: IndexEdge| #[trigger] evalid(e, s1.n()) implies listed(s1.a(), s1.d().remove(idx), s1.by_edge@, s1.n(), e) by {
            let s = choose|s: Seq<usize>| good(old(self).a(), old(self).d(), old(self).by_edge@[slot(e, s1.n())], e, s);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] cnode(s1.a(), e, s, i) by { assert(cnode(old(self).a(), e, s, i)); assert(s.contains(s[i])); assert(old(self).d().contains(s[i])); }
            assert forall|x: usize| s.contains(x) <==> #[trigger] s1.d().remove(idx).contains(x) && has_edge(s1.a()[x as int], e) by { assert(old(self).d().contains(x) == s1.d().remove(idx).contains(x)); assert(s.contains(x) <==> old(self).d().contains(x) && has_edge(old(self).a()[x as int], e)); }
            assert(good(s1.a(), s1.d().remove(idx), s1.by_edge@[slot(e, s1.n())], e, s));
        }
    }
//@ loop 0 iter it
    invariant
        self.shape(), self.n() == old(self).n(), self.d() == s1.d(), self.d().contains(idx), self.a().len() == s1.a().len(), same_pairs(s1.a(), self.a(), self.d()),
        !old(self).d().contains(idx), s1.d() == old(self).d().insert(idx), idx < self.a().len(),
        pair(self.a()[idx as int]) == (isect.min, isect.max), ecmp(isect.min, isect.max) == Ordering::Less, evalid(isect.min, self.n()), evalid(isect.max, self.n()),
        it.seq().len() == 2, *it.seq()[0] == isect.min, *it.seq()[1] == isect.max,
        forall|e: IndexEdge| #[trigger] evalid(e, self.n()) ==> listed(self.a(), if (it.index@ > 0 && e == isect.min) || (it.index@ > 1 && e == isect.max) { self.d() } else { self.d().remove(idx) }, self.by_edge@, self.n(), e),
        it.index@ <= 0 ==> node(self.a()[idx as int], isect.min).next is None && node(self.a()[idx as int], isect.min).prev is None,
        it.index@ <= 1 ==> node(self.a()[idx as int], isect.max).next is None && node(self.a()[idx as int], isect.max).prev is None,
//@ before if let Some(loc) = self[edge]
    let ghost p0 = *self;
    let ghost h0 = p0.by_edge@[slot(edge, p0.n())];
    let ghost s0 = choose|s: Seq<usize>| good(p0.a(), p0.d().remove(idx), h0, edge, s);
    proof {
        assert(edge == *it.seq()[it.index@ as int]);
        assert(evalid(edge, p0.n())); isp::slots(edge, p0.n());
        assert(listed(p0.a(), p0.d().remove(idx), p0.by_edge@, p0.n(), edge));
        assert(good(p0.a(), p0.d().remove(idx), h0, edge, s0));
        if s0.len() > 0 { assert(cnode(p0.a(), edge, s0, 0)); assert(s0.contains(s0[0])); assert(p0.d().remove(idx).contains(s0[0])); }
        assert(has_edge(p0.a()[idx as int], edge));
    }
//@ loop_bottom 0
    proof {
        assert forall|y: usize| #[trigger] p0.d().contains(y) implies y < p0.a().len() && pair(p0.a()[y as int]) == pair(self.a()[y as int]) && ie(p0.a()[y as int].edge0) != ie(p0.a()[y as int].edge1) by { }
        isp::front(p0.a(), self.a(), p0.d(), h0, edge, s0, idx);
        assert(self.by_edge@[slot(edge, self.n())] == Some(idx));
        assert(good(self.a(), self.d(), self.by_edge@[slot(edge, self.n())], edge, seq![idx] + s0));
        assert(listed(self.a(), self.d(), self.by_edge@, self.n(), edge));
        assert forall|e: IndexEdge| #[trigger] evalid(e, self.n()) && e != edge implies listed(self.a(), if (it.index@ > 0 && e == isect.min) || (it.index@ > 1 && e == isect.max) { self.d() } else { self.d().remove(idx) }, self.by_edge@, self.n(), e) by {
            let dd = if (it.index@ > 0 && e == isect.min) || (it.index@ > 1 && e == isect.max) { self.d() } else { self.d().remove(idx) };
            isp::slots(e, self.n());
            if slot(e, self.n()) == slot(edge, self.n()) { isp::slot_inj(e, edge, self.n()); }
            let h = p0.by_edge@[slot(e, p0.n())];
            let s = choose|s: Seq<usize>| good(p0.a(), dd, h, e, s);
            assert(listed(p0.a(), dd, p0.by_edge@, p0.n(), e));
            assert(good(p0.a(), dd, h, e, s));
            isp::other(p0.a(), self.a(), dd, h, e, s);
            assert(self.by_edge@[slot(e, self.n())] == h);
            assert(good(self.a(), dd, self.by_edge@[slot(e, self.n())], e, s));
        }
    }
//@ bottom
    proof {
        assert forall|e: IndexEdge| #[trigger] evalid(e, self.n()) implies listed(self.a(), self.d(), self.by_edge@, self.n(), e) by {
            if e != isect.min && e != isect.max {
                let h = self.by_edge@[slot(e, self.n())];
                assert(listed(self.a(), self.d().remove(idx), self.by_edge@, self.n(), e));
                let s = choose|s: Seq<usize>| good(self.a(), self.d().remove(idx), h, e, s);
                assert(good(self.a(), self.d().remove(idx), h, e, s));
                assert(!has_edge(self.a()[idx as int], e));
                isp::nofresh(self.a(), self.d(), h, e, s, idx);
                assert(good(self.a(), self.d(), h, e, s));
            }
        }
        assert(pair(self.a()[idx as int]) == (isect.min, isect.max));
        isp::pushed(*old(self), *self, idx, isect.min, isect.max);
    }
//@ end

//@ fn src/data/intersection_set.rs | impl IndexIntersectionSet | remove
//@ spec
    requires old(self).wf(), old(self).d().contains(idx)
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).a().len() == old(self).a().len(), final(self).d() == old(self).d().remove(idx), same_pairs(old(self).a(), final(self).a(), final(self).d())
//@ after_stmt let isect =
    let ghost s1 = *self;
    proof {
        assert(s1.d().insert(idx) =~= old(self).d());
        assert(s1.a().update(idx as int, isect) =~= old(self).a());
        assert forall|e: IndexEdge| #[trigger] evalid(e, s1.n()) implies if e == ie(isect.edge0) || e == ie(isect.edge1) { listed(s1.a().update(idx as int, isect), s1.d().insert(idx), s1.by_edge@, s1.n(), e) } else { listed(s1.a(), s1.d(), s1.by_edge@, s1.n(), e) } by {
            assert(listed(old(self).a(), old(self).d(), s1.by_edge@, s1.n(), e));
            if !(e == ie(isect.edge0) || e == ie(isect.edge1)) {
                let h = s1.by_edge@[slot(e, s1.n())];
                let s = choose|s: Seq<usize>| good(old(self).a(), old(self).d(), h, e, s);
                isp::dropped(old(self).a(), s1.a(), old(self).d(), h, e, s, idx);
            }
        }
    }
//@ loop 0 iter it
    invariant
        self.shape(), self.n() == old(self).n(), self.d() == s1.d(), !self.d().contains(idx), self.a().len() == s1.a().len(), same_pairs(s1.a(), self.a(), self.d()), idx < self.a().len(), iok(isect, self.n()),
        it.seq().len() == 2, *it.seq()[0] == isect.edge0, *it.seq()[1] == isect.edge1,
        forall|e: IndexEdge| #[trigger] evalid(e, self.n()) ==> if it.index@ <= 0 && e == ie(isect.edge0) || it.index@ <= 1 && e == ie(isect.edge1) { listed(self.a().update(idx as int, isect), self.d().insert(idx), self.by_edge@, self.n(), e) } else { listed(self.a(), self.d(), self.by_edge@, self.n(), e) },
//@ before match edge.prev
    let ghost p0 = *self;
    let ghost e0 = ie(edge);
    let ghost h0 = p0.by_edge@[slot(e0, p0.n())];
    let ghost u0 = p0.a().update(idx as int, isect);
    let ghost s0 = choose|s: Seq<usize>| good(u0, p0.d().insert(idx), h0, e0, s);
    proof {
        assert(edge == *it.seq()[it.index@ as int]);
        assert(evalid(e0, p0.n())); isp::slots(e0, p0.n());
        assert(listed(u0, p0.d().insert(idx), p0.by_edge@, p0.n(), e0));
        assert(good(u0, p0.d().insert(idx), h0, e0, s0));
        assert(p0.d().insert(idx).contains(idx)); assert(s0.contains(idx));
        let k = choose|k: int| 0 <= k < s0.len() && s0[k] == idx;
        assert(cnode(u0, e0, s0, k));
        assert(node(isect, e0) == edge);
        if k > 0 { assert(cnode(u0, e0, s0, k - 1)); assert(s0.contains(s0[k - 1])); assert(p0.d().insert(idx).contains(s0[k - 1])); assert(s0[k - 1] != idx); }
        if k + 1 < s0.len() { assert(cnode(u0, e0, s0, k + 1)); assert(s0.contains(s0[k + 1])); assert(p0.d().insert(idx).contains(s0[k + 1])); assert(s0[k + 1] != idx); }
        if k > 0 && k + 1 < s0.len() { assert(s0[k - 1] != s0[k + 1]); }
    }
//@ loop_bottom 0
    proof {
        assert(same_pairs(p0.a(), self.a(), self.d()));
        isp::unlinked(p0.a(), self.a(), self.d(), h0, self.by_edge@[slot(e0, self.n())], e0, s0, idx, isect);
        assert(listed(self.a(), self.d(), self.by_edge@, self.n(), e0));
        assert forall|e: IndexEdge| #[trigger] evalid(e, self.n()) && e != e0 implies if it.index@ <= 0 && e == ie(isect.edge0) || it.index@ <= 1 && e == ie(isect.edge1) { listed(self.a().update(idx as int, isect), self.d().insert(idx), self.by_edge@, self.n(), e) } else { listed(self.a(), self.d(), self.by_edge@, self.n(), e) } by {
            let pend = it.index@ <= 0 && e == ie(isect.edge0) || it.index@ <= 1 && e == ie(isect.edge1);
            let (a, b, dd) = if pend { (u0, self.a().update(idx as int, isect), self.d().insert(idx)) } else { (p0.a(), self.a(), self.d()) };
            isp::slots(e, self.n());
            if slot(e, self.n()) == slot(e0, self.n()) { isp::slot_inj(e, e0, self.n()); }
            let h = p0.by_edge@[slot(e, p0.n())];
            assert(listed(a, dd, p0.by_edge@, p0.n(), e));
            let s = choose|s: Seq<usize>| good(a, dd, h, e, s);
            assert(good(a, dd, h, e, s));
            isp::other(a, b, dd, h, e, s);
            assert(self.by_edge@[slot(e, self.n())] == h);
            assert(good(b, dd, self.by_edge@[slot(e, self.n())], e, s));
        }
    }
//@ end
//@ fn src/data/intersection_set.rs | impl IndexIntersectionSet | remove_all
//@ rewrite edge: impl Into<IndexEdge> =>> edge: IndexEdge
//@ rewrite let key = edge.into(); =>> let key = edge;
//@ spec
    requires old(self).wf(), evalid(edge, old(self).n())
    ensures
        final(self).wf(), final(self).n() == old(self).n(), same_pairs(old(self).a(), final(self).a(), final(self).d()),
        forall|x: usize| #[trigger] final(self).d().contains(x) <==> old(self).d().contains(x) && !has_edge(old(self).a()[x as int], edge),
        forall|e: IndexEdge, f: IndexEdge| #[trigger] held(*final(self), e, f) == (held(*old(self), e, f) && e != edge && f != edge),
//@ loop 0
    invariant
        self.wf(), self.n() == old(self).n(), evalid(key, self.n()), same_pairs(old(self).a(), self.a(), self.d()),
        forall|x: usize| #[trigger] self.d().contains(x) ==> old(self).d().contains(x),
        forall|x: usize| #[trigger] old(self).d().contains(x) && !has_edge(old(self).a()[x as int], key) ==> self.d().contains(x),
    ensures self.by_edge@[slot(key, self.n())] is None
    decreases self.d().len()
//@ bottom
    proof {
        assert(listed(self.a(), self.d(), self.by_edge@, self.n(), key));
        let s = choose|s: Seq<usize>| good(self.a(), self.d(), self.by_edge@[slot(key, self.n())], key, s);
        assert(good(self.a(), self.d(), self.by_edge@[slot(key, self.n())], key, s));
        assert(s.len() == 0);
        assert forall|x: usize| #[trigger] self.d().contains(x) implies !has_edge(old(self).a()[x as int], key) by { assert(s.contains(x) <==> self.d().contains(x) && has_edge(self.a()[x as int], key)); assert(pair(self.a()[x as int]) == pair(old(self).a()[x as int])); }
        isp::purged(*old(self), *self, key);
    }
//@ end
//@ fn src/data/intersection_set.rs | impl IndexIntersectionSet | random
//@ ret r
//@ rewrite + ?Sized =>>
//@ spec
    requires old(self).wf()
    ensures
        *final(self) == *old(self),
        match r { None => forall|e: IndexEdge, f: IndexEdge| !#[trigger] held(*old(self), e, f), Some(x) => held(*old(self), x.min, x.max) },
        match r { None => old(self).d() == Set::<usize>::empty(), Some(x) => exists|i: usize| #[trigger] old(self).d().contains(i) && pair(old(self).a()[i as int]) == (x.min, x.max) }
//@ end
}

impl vstd::std_specs::convert::FromSpecImpl<Isect> for IndexIntersection {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Isect) -> Self { arbitrary() }
}
impl From<Isect> for IndexIntersection {
//@ fn src/data/intersection_set.rs | From<Isect> for IndexIntersection | from
//@ ret r
//@ spec
    ensures ie(isect.edge0).min.0 < ie(isect.edge0).max.0 && ie(isect.edge1).min.0 < ie(isect.edge1).max.0 && ecmp(ie(isect.edge0), ie(isect.edge1)) == Ordering::Less ==> (r.min, r.max) == pair(isect)
//@ end
}
impl IndexIntersectionSet {
//@ fn src/data/intersection_set.rs | impl IndexIntersectionSet | iter
//@ ret r
//@ rewrite .map( =>> .vmap(
//@ spec
    requires self.wf()
    ensures r.obeys_prophetic_iter_laws(), r.remaining().len() <= self.by_idx.dense.v().len(), r.will_return_none() ==> r.remaining().len() == self.by_idx.dense.v().len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> { let x = #[trigger] r.remaining()[i]; (x.min, x.max) == pair(self.a()[self.by_idx.dense.v()[i] as int]) }
//@ top
    proof {
        assert forall|i: int| 0 <= i < self.by_idx.dense.v().len() implies iok(#[trigger] self.a()[self.by_idx.dense.v()[i] as int], usize::MAX as int) by {
            assert(self.by_idx.dense.v().contains(self.by_idx.dense.v()[i]));
            assert(self.d().contains(self.by_idx.dense.v()[i]));
        }
    }
//@ closure 0
    -> (y: IndexIntersection) ensures iok(*vx_p1, usize::MAX as int) ==> (y.min, y.max) == pair(*vx_p1)
//@ end
}
} // verus!
