// Ear clipping: every step cuts off an ear of the ring of remaining vertices.
verus! {
//@ item src/data/polygon.rs | PointId | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
impl PointId {
//@ fn src/data/polygon.rs | impl PointId | usize
//@ ret r
//@ spec
    ensures r == self.0
//@ end
}
//@ item src/algorithms/triangulation/earclip.rs | List | fields=pub
//@ item src/algorithms/triangulation/earclip.rs | Cursor | fields=pub
//@ item src/algorithms/triangulation/earclip.rs | IntSet | fields=pub
//@ item src/algorithms/triangulation/earclip.rs | EarStore | fields=pub

// cyclic successor, predecessor and m-th successor of an index below n
pub open spec fn nxi(i: int, n: int) -> int { if i + 1 >= n { 0 } else { i + 1 } }
pub open spec fn pvi(i: int, n: int) -> int { if i <= 0 { n - 1 } else { i - 1 } }
pub open spec fn wri(i: int, n: int) -> int { if i >= n { i - n } else { i } }

pub open spec fn lpt<T: PolygonScalar>(l: List<'_, T>, i: usize) -> P2 { pxy(l.points@[l.order@[i as int].0 as int]) }
pub open spec fn lwf<T>(l: List<'_, T>) -> bool {
    &&& l.next@.len() == l.order@.len() && l.prev@.len() == l.order@.len()
    &&& forall|i: int| 0 <= i < l.order@.len() ==> (#[trigger] l.order@[i]).0 < l.points@.len()
}
pub open spec fn inlist<T>(l: List<'_, T>, s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < l.next@.len() }
pub open spec fn lnk<T>(l: List<'_, T>, s: Seq<usize>, i: int) -> bool { l.next@[s[i] as int] == s[nxi(i, s.len() as int)] && l.prev@[s[i] as int] == s[pvi(i, s.len() as int)] }
// s is the closed list of the remaining positions
pub open spec fn ring<T>(l: List<'_, T>, s: Seq<usize>) -> bool {
    &&& lwf(l) && s.no_duplicates() && s.len() > 0 && inlist(l, s)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] lnk(l, s, i)
}
// the triangle a b c is counter-clockwise ...
pub open spec fn lccw<T: PolygonScalar>(l: List<'_, T>, a: usize, b: usize, c: usize) -> bool { orient3(lpt(l, a), lpt(l, b), lpt(l, c)) == Orientation::CounterClockWise }
// ... and x does not obstruct it
pub open spec fn clear<T: PolygonScalar>(l: List<'_, T>, a: usize, b: usize, c: usize, x: usize) -> bool { x == a || x == b || x == c || tri_loc(lpt(l, a), lpt(l, b), lpt(l, c), lpt(l, x)) == PointLocation::Outside }
pub open spec fn earq<T: PolygonScalar>(l: List<'_, T>, s: Seq<usize>, a: usize, b: usize, c: usize) -> bool {
    lccw(l, a, b, c) && forall|i: int| 0 <= i < s.len() ==> clear(l, a, b, c, #[trigger] s[i])
}
// a, b, c are consecutive in the ring s, b at index k
pub open spec fn corner<T>(l: List<'_, T>, s: Seq<usize>, k: int, a: usize, b: usize, c: usize) -> bool {
    ring(l, s) && 3 <= s.len() && 0 <= k < s.len() && a == s[pvi(k, s.len() as int)] && b == s[k] && c == s[nxi(k, s.len() as int)]
}
// what one step does to the ring: the ear at index k is cut off
pub open spec fn cuts<T: PolygonScalar>(l: List<'_, T>, s: Seq<usize>, k: int, out: (PointId, PointId, PointId)) -> bool {
    let (a, b, c) = (s[pvi(k, s.len() as int)], s[k], s[nxi(k, s.len() as int)]);
    0 <= k < s.len() && earq(l, s, a, b, c) && out == (l.order@[a as int], l.order@[b as int], l.order@[c as int])
}
pub open spec fn stepped<T: PolygonScalar>(l: List<'_, T>, r: List<'_, T>, e: EarStore, s: Seq<usize>, out: (PointId, PointId, PointId)) -> bool {
    exists|k: int| #[trigger] cuts(l, s, k, out) && ring(r, s.remove(k)) && e.ok(l.order@.len() as int) && e.within(s.remove(k))
}
impl<T> Copy for Cursor<'_, T> {}
impl<'a, T> Clone for Cursor<'a, T> {
//@ fn src/algorithms/triangulation/earclip.rs | Clone for Cursor<'a, T> | clone | probe=no
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'a, T> PartialEqSpecImpl for Cursor<'a, T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.position == other.position }
}
impl<'a, T> PartialEq for Cursor<'a, T> {
//@ fn src/algorithms/triangulation/earclip.rs | PartialEq for Cursor<'a, T> | eq | probe=no
//@ end
}
pub open spec fn cok<T>(c: Cursor<'_, T>) -> bool { lwf(*c.list) && c.position < c.list.order@.len() }
impl<'a, T> Cursor<'a, T> {
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | valid
//@ ret r
//@ spec
    ensures r == (self.position != usize::MAX)
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | next
//@ ret r
//@ spec
    requires cok(self)
    ensures r.list == self.list, r.position == self.list.next@[self.position as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | prev
//@ ret r
//@ spec
    requires cok(self)
    ensures r.list == self.list, r.position == self.list.prev@[self.position as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | point
//@ ret r
//@ spec
    requires cok(*self)
    ensures *r == self.list.points@[self.list.order@[self.position as int].0 as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | point_id
//@ ret r
//@ spec
    requires cok(*self)
    ensures r == self.list.order@[self.position as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | hash
//@ ret r
//@ spec
    requires self.position < self.list.hashes@.len()
    ensures r == self.list.hashes@[self.position as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl Cursor<'a, T> | between
//@ ret r
//@ spec
    requires self.position < self.list.hashes@.len()
    ensures r == (min <= self.list.hashes@[self.position as int] <= max)
//@ end
}
pub open spec fn upto(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }
// m with position j taken out of its place
pub open spec fn unlink<T>(l: List<'_, T>, r: List<'_, T>, j: int) -> bool {
    let (p, n) = (l.prev@[j], l.next@[j]);
    &&& r.points == l.points && r.order == l.order && r.hashes == l.hashes
    &&& r.next@ == if p != usize::MAX { l.next@.update(p as int, n) } else { l.next@ }
    &&& r.prev@ == if n != usize::MAX { l.prev@.update(n as int, p) } else { l.prev@ }
}
impl<'a, T> List<'a, T> {
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | new
//@ ret r
//@ spec
    requires forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < points@.len()
    ensures r.points == points, r.order == order, lwf(r), order@.len() > 0 ==> ring(r, upto(order@.len() as int))
//@ loop 0
    invariant
        size == order@.len(), prev@.len() == size, next@.len() == size,
        forall|j: int| 0 <= j < i ==> #[trigger] next@[j] == nxi(j, size as int),
        forall|j: int| 0 <= j < i && j + 1 < size ==> #[trigger] prev@[j + 1] == j, i == size && size > 0 ==> prev@[0] == size - 1,
//@ loop_top 0
    proof { earp::modlem(i as int + 1, size as int); }
//@ tail res
    proof {
        let s = upto(size as int);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] lnk(res, s, i) by {
            if i > 0 { assert(res.prev@[i - 1 + 1] == i - 1); }
        }
    }
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | prev
//@ ret r
//@ spec
    requires vertex < self.prev@.len()
    ensures r == self.prev@[vertex as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | next
//@ ret r
//@ spec
    requires vertex < self.next@.len()
    ensures r == self.next@[vertex as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | delete
//@ spec
    requires
        vertex < old(self).next@.len(), old(self).prev@.len() == old(self).next@.len(),
        old(self).prev@[vertex as int] == usize::MAX || old(self).prev@[vertex as int] < old(self).next@.len(), old(self).next@[vertex as int] == usize::MAX || old(self).next@[vertex as int] < old(self).prev@.len(),
    ensures unlink(*old(self), *final(self), vertex as int)
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | cursor
//@ ret r
//@ spec
    ensures r.list == self, r.position == vertex
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | point
//@ ret r
//@ spec
    requires lwf(*self), vertex < self.order@.len()
    ensures *r == self.points@[self.order@[vertex as int].0 as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | point_id
//@ ret r
//@ spec
    requires vertex < self.order@.len()
    ensures r == self.order@[vertex as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | hash
//@ ret r
//@ spec
    requires vertex < self.hashes@.len()
    ensures r == self.hashes@[vertex as int]
//@ end
}
impl IntSet {
//@ fn src/algorithms/triangulation/earclip.rs | impl IntSet | with_capacity
//@ ret r
//@ spec
    ensures r.set@.len() == capacity, forall|i: int| 0 <= i < capacity ==> #[trigger] r.set@[i]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl IntSet | contains
//@ ret r
//@ spec
    requires value < self.set@.len()
    ensures r == self.set@[value as int]
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl IntSet | insert
//@ spec
    requires value < old(self).set@.len()
    ensures final(self).set@ == old(self).set@.update(value as int, true)
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl IntSet | delete
//@ spec
    requires value < old(self).set@.len()
    ensures final(self).set@ == old(self).set@.update(value as int, false)
//@ end
}
// rand's generator: gen_range panics on an empty range, and otherwise returns a member of it
pub trait Rng {
    fn gen_range(&mut self, range: std::ops::Range<usize>) -> (r: usize) ensures range.start <= r < range.end;
}
impl EarStore {
    pub open spec fn v(&self) -> Seq<usize> { self.possible_ears_vec@ }
    // no vertex is stored twice, and the set says which are stored
    pub open spec fn ok(&self, n: int) -> bool {
        &&& self.possible_ears_set.set@.len() == n && self.v().no_duplicates()
        &&& forall|i: int| 0 <= i < self.v().len() ==> #[trigger] self.v()[i] < n
        &&& forall|x: usize| x < n ==> self.possible_ears_set.set@[x as int] == #[trigger] self.v().contains(x)
    }
    // every stored vertex is still in the ring
    pub open spec fn within(&self, s: Seq<usize>) -> bool { forall|i: int| 0 <= i < self.v().len() ==> s.contains(#[trigger] self.v()[i]) }
//@ fn src/algorithms/triangulation/earclip.rs | impl EarStore | new
//@ ret r
//@ spec
    ensures r.ok(size as int), r.v() == upto(size as int)
//@ tail res
    proof {
        assert(res.v() =~= upto(size as int));
        assert forall|x: usize| x < size implies res.possible_ears_set.set@[x as int] == #[trigger] res.v().contains(x) by { assert(res.v()[x as int] == x); }
    }
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl EarStore | new_possible_ear
//@ spec
    requires old(self).ok(old(self).possible_ears_set.set@.len() as int), possible_ear < old(self).possible_ears_set.set@.len()
    ensures final(self).ok(old(self).possible_ears_set.set@.len() as int), final(self).v() == if old(self).v().contains(possible_ear) { old(self).v() } else { old(self).v().push(possible_ear) }
//@ top
    let ghost o = *self;
//@ bottom
    proof { earp::pushed(o, *self, possible_ear); }
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | impl EarStore | pop
//@ ret r
//@ spec
    requires old(self).ok(old(self).possible_ears_set.set@.len() as int)
    ensures
        final(self).ok(old(self).possible_ears_set.set@.len() as int), r is Some, old(self).v().contains(r->0), final(self).v().len() == old(self).v().len() - 1,
        forall|i: int| 0 <= i < final(self).v().len() ==> old(self).v().contains(#[trigger] final(self).v()[i]) && final(self).v()[i] != r->0,
//@ top
    let ghost o = *self;
//@ tail res
    proof { earp::popped(o, *self, n as int, next); }
//@ end
}
} // verus!
pub mod earp { use super::*; verus! {
pub proof fn modlem(a: int, n: int) requires 0 <= a <= n, n > 0 ensures a % n == if a == n { 0 } else { a }
{ if a == n { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, n as nat); } }
pub proof fn pushed(o: EarStore, r: EarStore, x: usize)
    requires o.ok(o.possible_ears_set.set@.len() as int), x < o.possible_ears_set.set@.len(), o.v().contains(x) ==> r == o, !o.v().contains(x) ==> r.v() == o.v().push(x) && r.possible_ears_set.set@ == o.possible_ears_set.set@.update(x as int, true)
    ensures r.ok(o.possible_ears_set.set@.len() as int)
{
    let n = o.possible_ears_set.set@.len() as int;
    if !o.v().contains(x) {
        assert forall|y: usize| y < n implies r.possible_ears_set.set@[y as int] == #[trigger] r.v().contains(y) by {
            if y == x { assert(r.v()[o.v().len() as int] == x); }
            else if o.v().contains(y) { let i = choose|i: int| 0 <= i < o.v().len() && o.v()[i] == y; assert(r.v()[i] == y); }
            else if r.v().contains(y) { let i = choose|i: int| 0 <= i < r.v().len() && r.v()[i] == y; assert(o.v()[i] == y); }
        }
    }
}
pub proof fn popped(o: EarStore, r: EarStore, k: int, x: usize)
    requires
        o.ok(o.possible_ears_set.set@.len() as int), 0 <= k < o.v().len(), x == o.v()[k], r.v() =~= o.v().update(k, o.v().last()).drop_last(), r.possible_ears_set.set@ == o.possible_ears_set.set@.update(x as int, false)
    ensures
        r.ok(o.possible_ears_set.set@.len() as int), o.v().contains(x),
        forall|i: int| 0 <= i < r.v().len() ==> o.v().contains(#[trigger] r.v()[i]) && r.v()[i] != x,
{
    let n = o.possible_ears_set.set@.len() as int; let m = o.v().len() as int;
    assert forall|i: int| 0 <= i < r.v().len() implies o.v().contains(#[trigger] r.v()[i]) && r.v()[i] != x by { let j = if i == k { m - 1 } else { i }; assert(r.v()[i] == o.v()[j]); }
    assert forall|y: usize| y < n implies r.possible_ears_set.set@[y as int] == #[trigger] r.v().contains(y) by {
        if y != x && o.v().contains(y) { let i = choose|i: int| 0 <= i < m && o.v()[i] == y; let j = if i == m - 1 { k } else { i }; assert(r.v()[j] == y); }
    }
    assert forall|i: int, j: int| 0 <= i < r.v().len() && 0 <= j < r.v().len() && i != j implies r.v()[i] != r.v()[j] by {
        let i2 = if i == k { m - 1 } else { i }; let j2 = if j == k { m - 1 } else { j }; assert(o.v()[i2] != o.v()[j2]);
    }
}
} }
pub mod earw { use super::*; verus! {
// the walk from the corner (k-1, k, k+1) has passed the vertices up to k+m, all clear
pub open spec fn walked<T: PolygonScalar>(l: List<'_, T>, s: Seq<usize>, k: int, m: int, x: usize, a: usize, b: usize, c: usize) -> bool {
    let n = s.len() as int;
    &&& 2 <= m <= n - 1 && x == s[wri(k + m, n)]
    &&& forall|j: int| 2 <= j < m ==> clear(l, a, b, c, s[#[trigger] wri(k + j, n)])
}
pub open spec fn walked_all<T: PolygonScalar>(l: List<'_, T>, m: int, x: usize, a: usize, b: usize, c: usize) -> bool {
    forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) ==> walked(l, s, k, m, x, a, b, c)
}
pub proof fn wstep<T: PolygonScalar>(l: List<'_, T>, s: Seq<usize>, k: int, m: int, x: usize, a: usize, b: usize, c: usize)
    requires corner(l, s, k, a, b, c), walked(l, s, k, m, x, a, b, c)
    ensures
        x < l.next@.len(), s.contains(x), x == a <==> m == s.len() - 1,
        x != a ==> x != b && x != c && l.next@[x as int] == s[wri(k + m + 1, s.len() as int)],
        x != a && clear(l, a, b, c, x) ==> walked(l, s, k, m + 1, l.next@[x as int], a, b, c),
        x == a && lccw(l, a, b, c) ==> earq(l, s, a, b, c),
{
    let n = s.len() as int;
    assert(lnk(l, s, wri(k + m, n)));
    assert(wri(k + n - 1, n) == pvi(k, n));
    if x == a {
        assert(m == n - 1);
        assert forall|i: int| 0 <= i < s.len() implies clear(l, a, b, c, #[trigger] s[i]) by {
            let j = if i >= k { i - k } else { i - k + n };
            assert(wri(k + j, n) == i);
        }
    }
}
pub proof fn wstart<T: PolygonScalar>(l: List<'_, T>, s: Seq<usize>, k: int, a: usize, b: usize, c: usize)
    requires corner(l, s, k, a, b, c)
    ensures c < l.next@.len(), walked(l, s, k, 2, l.next@[c as int], a, b, c)
{ assert(lnk(l, s, nxi(k, s.len() as int))); }
pub proof fn wstart_all<T: PolygonScalar>(l: List<'_, T>, a: usize, b: usize, c: usize)
    requires c < l.next@.len()
    ensures walked_all(l, 2, l.next@[c as int], a, b, c)
{ assert forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) implies walked(l, s, k, 2, l.next@[c as int], a, b, c) by { wstart(l, s, k, a, b, c); } }
pub proof fn wstep_all<T: PolygonScalar>(l: List<'_, T>, m: int, x: usize, a: usize, b: usize, c: usize)
    requires walked_all(l, m, x, a, b, c), x < l.next@.len()
    ensures
        x != a && clear(l, a, b, c, x) ==> walked_all(l, m + 1, l.next@[x as int], a, b, c),
        x != a && !clear(l, a, b, c, x) ==> forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) ==> !earq(l, s, a, b, c),
        x == a && lccw(l, a, b, c) ==> forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) ==> earq(l, s, a, b, c),
{
    if x != a && clear(l, a, b, c, x) { assert forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) implies walked(l, s, k, m + 1, l.next@[x as int], a, b, c) by { wstep(l, s, k, m, x, a, b, c); } }
    if x != a && !clear(l, a, b, c, x) { assert forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) implies !earq(l, s, a, b, c) by { wstep(l, s, k, m, x, a, b, c); } }
    if x == a && lccw(l, a, b, c) { assert forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, a, b, c) implies earq(l, s, a, b, c) by { wstep(l, s, k, m, x, a, b, c); } }
}
// a cut vertex leaves a ring of the others
pub proof fn cut_ring<T>(l: List<'_, T>, r: List<'_, T>, s: Seq<usize>, k: int)
    requires ring(l, s), 2 <= s.len(), 0 <= k < s.len(), unlink(l, r, s[k] as int)
    ensures ring(r, s.remove(k))
{
    let n = s.len() as int; let t = s.remove(k);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { let i2 = if i < k { i } else { i + 1 }; let j2 = if j < k { j } else { j + 1 }; assert(s[i2] != s[j2]); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < r.next@.len() by { let i2 = if i < k { i } else { i + 1 }; assert(s[i2] < l.next@.len()); }
    let (p, q) = (pvi(k, n), nxi(k, n));
    assert(l.next@.len() == l.next.len()); assert(s[p] < l.next@.len() && s[q] < l.next@.len());
    assert(lnk(l, s, k)); assert(l.prev@[s[k] as int] == s[p] && l.next@[s[k] as int] == s[q]);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] lnk(r, t, i) by {
        let i2 = if i < k { i } else { i + 1 };
        assert(t[i] == s[i2]); assert(lnk(l, s, i2));
        assert(s[i2] != s[p] || i2 == p); assert(s[i2] != s[q] || i2 == q);
        let (a, b) = (nxi(i, n - 1), pvi(i, n - 1));
        assert(t[a] == s[if a < k { a } else { a + 1 }]); assert(t[b] == s[if b < k { b } else { b + 1 }]);
    }
}
// the store keeps to the ring
pub proof fn cut_store(o: EarStore, e: EarStore, s: Seq<usize>, k: int, n: int)
    requires e.ok(n), 0 <= k < s.len(), s.no_duplicates(), forall|i: int| 0 <= i < e.v().len() ==> s.contains(#[trigger] e.v()[i]) && e.v()[i] != s[k]
    ensures e.within(s.remove(k))
{
    let t = s.remove(k);
    assert forall|i: int| 0 <= i < e.v().len() implies t.contains(#[trigger] e.v()[i]) by {
        let x = e.v()[i];
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        assert(t[if j < k { j } else { j - 1 }] == x);
    }
}
} }
verus! {
//@ fn src/algorithms/triangulation/earclip.rs | - | is_ear
//@ ret r
//@ spec
    requires a.list == b.list, b.list == c.list, exists|s: Seq<usize>, k: int| corner(*a.list, s, k, a.position, b.position, c.position)
    ensures forall|s: Seq<usize>, k: int| #[trigger] corner(*a.list, s, k, a.position, b.position, c.position) ==> r == earq(*a.list, s, a.position, b.position, c.position)
//@ top
    let ghost (l, pa, pb, pc) = (*a.list, a.position, b.position, c.position);
    let ghost (s0, k0) = choose|s: Seq<usize>, k: int| corner(l, s, k, pa, pb, pc);
    proof { assert(corner(l, s0, k0, pa, pb, pc)); assert(pa < l.next@.len() && pb < l.next@.len() && pc < l.next@.len()); }
    let ghost mut m: int = 2;
//@ after_stmt let mut focus
    proof { earw::wstart_all(l, pa, pb, pc); earw::wstep(l, s0, k0, m, focus.position, pa, pb, pc); earw::wstep_all(l, m, focus.position, pa, pb, pc); }
//@ loop 0
    invariant
        corner(l, s0, k0, pa, pb, pc), earw::walked_all(l, m, focus.position, pa, pb, pc), l == *a.list, pa == a.position, pb == b.position, pc == c.position, *focus.list == l, lwf(l),
        focus.position == pa ==> forall|s: Seq<usize>, k: int| #[trigger] corner(l, s, k, pa, pb, pc) ==> earq(l, s, pa, pb, pc),
        trig.ori() == Orientation::CounterClockWise, lccw(l, pa, pb, pc), pxy(*trig.0[0]) == lpt(l, pa), pxy(*trig.0[1]) == lpt(l, pb), pxy(*trig.0[2]) == lpt(l, pc),
    decreases s0.len() - m
//@ loop_top 0
    proof { earw::wstep(l, s0, k0, m, focus.position, pa, pb, pc); earw::wstep_all(l, m, focus.position, pa, pb, pc); m = m + 1; }
//@ loop_bottom 0
    proof { earw::wstep(l, s0, k0, m, focus.position, pa, pb, pc); earw::wstep_all(l, m, focus.position, pa, pb, pc); }
//@ end
// the set-up: the ring of all positions, every vertex a possible ear
//@ fn src/algorithms/triangulation/earclip.rs | - | triangulate_list | part=init | rename=triangulate_list_init
//@ gsig fn triangulate_list_init<'a, T: PolygonScalar>(points: &'a [Point<T>], order: &'a [PointId]) -> (r: (usize, List<'a, T>, EarStore))
//@ init_ret (len, vertices, possible_ears)
//@ spec
    requires forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < points@.len()
    ensures
        r.0 == order@.len(), r.1.points == points, r.1.order == order, order@.len() > 0 ==> ring(r.1, upto(r.0 as int)),
        r.2.ok(order@.len() as int), r.2.within(upto(r.0 as int))
//@ end
// one call of the iterator
//@ fn src/algorithms/triangulation/earclip.rs | - | triangulate_list | part=step | rename=triangulate_list_step
//@ gsig fn triangulate_list_step<'a, T: PolygonScalar, R: Rng>(rng: &mut R, len: &mut usize, vertices: &mut List<'a, T>, possible_ears: &mut EarStore, Ghost(s): Ghost<Seq<usize>>) -> (r: Option<(PointId, PointId, PointId)>)
//@ spec
    requires *old(len) > 0 ==> ring(*old(vertices), s), *old(len) == s.len(), old(possible_ears).ok(old(vertices).order@.len() as int), old(possible_ears).within(s)
    ensures
        final(vertices).points == old(vertices).points, final(vertices).order == old(vertices).order,
        r is None <==> *old(len) <= 2,
        match r { None => *final(len) == *old(len), Some(out) => *final(len) == s.len() - 1 && stepped(*old(vertices), *final(vertices), *final(possible_ears), s, out) },
//@ loop 0
    invariant *len == s.len(), *len == *old(len), s.len() >= 3, ring(*vertices, s), *vertices == *old(vertices), possible_ears.ok(vertices.order@.len() as int), possible_ears.within(s)
    decreases possible_ears.v().len()
//@ after_stmt let focus = vertices.cursor(
    let ghost k = choose|k: int| 0 <= k < s.len() && s[k] == focus.position;
    let ghost n = s.len() as int;
    proof {
        assert(s.contains(focus.position)); assert(lnk(*vertices, s, k));
        assert(s[pvi(k, n)] < vertices.next@.len() && s[nxi(k, n)] < vertices.next@.len() && s[k] < vertices.next@.len());
        assert(corner(*vertices, s, k, s[pvi(k, n)], s[k], s[nxi(k, n)]));
    }
//@ before vertices.delete(
    proof { assert(cuts(*vertices, s, k, out)); }
    let ghost l0 = *vertices;
//@ after_stmt vertices.delete(
    proof { earw::cut_ring(l0, *vertices, s, k); earw::cut_store(*possible_ears, *possible_ears, s, k, l0.order@.len() as int);
        assert(cuts(*old(vertices), s, k, out)); assert(stepped(*old(vertices), *vertices, *possible_ears, s, out)); }
//@ end
} // verus!
pub mod eara { use super::*; verus! {
pub open spec fn chain(q: Seq<P2>) -> real decreases q.len() { if q.len() <= 1 { 0real } else { chain(q.drop_last()) + cross2(q[q.len() - 2], q.last()) } }
// twice the area of a closed ring
pub open spec fn area2(q: Seq<P2>) -> real { if q.len() == 0 { 0real } else { chain(q) + cross2(q.last(), q[0]) } }
proof fn chain_cut(q: Seq<P2>, k: int)
    requires q.len() >= 2, 0 <= k < q.len()
    ensures chain(q.remove(k)) == chain(q) - (if k > 0 { cross2(q[k - 1], q[k]) } else { 0real }) - (if k + 1 < q.len() { cross2(q[k], q[k + 1]) } else { 0real }) + (if 0 < k && k + 1 < q.len() { cross2(q[k - 1], q[k + 1]) } else { 0real })
    decreases q.len()
{
    let n = q.len() as int; let t = q.remove(k); let d = q.drop_last();
    assert(chain(q) == chain(d) + cross2(q[n - 2], q[n - 1]));
    if k == n - 1 { assert(t =~= d); }
    else if n == 2 { assert(chain(t) == 0real); assert(chain(d) == 0real); }
    else {
        assert(t.drop_last() =~= d.remove(k));
        assert(t.last() == q.last());
        assert(chain(t) == chain(d.remove(k)) + cross2(t[n - 3], t.last()));
        chain_cut(d, k);
        assert(d[k] == q[k]); assert(k == 0 || d[k - 1] == q[k - 1]);
        if k == n - 2 { assert(t[n - 3] == q[n - 3]); } else { assert(t[n - 3] == q[n - 2]); assert(d[k + 1] == q[k + 1]); }
    }
}
// cutting a corner off a ring takes the corner's area away
pub proof fn cut_area(q: Seq<P2>, k: int)
    requires q.len() >= 3, 0 <= k < q.len()
    ensures area2(q) == area2(q.remove(k)) + cross3(q[pvi(k, q.len() as int)], q[k], q[nxi(k, q.len() as int)])
{
    chain_cut(q, k);
    let n = q.len() as int; let (a, b, c) = (q[pvi(k, n)], q[k], q[nxi(k, n)]);
    cross3_expand(a, b, c); cross2_anti(a, c); 
    let t = q.remove(k);
    assert(t.last() == if k == n - 1 { q[n - 2] } else { q[n - 1] }); assert(t[0] == if k == 0 { q[1] } else { q[0] });
}
pub open spec fn ptsof<T: PolygonScalar>(pts: Seq<Point<T, 2>>, ord: Seq<PointId>, s: Seq<usize>) -> Seq<P2> { Seq::new(s.len(), |i: int| pxy(pts[ord[s[i] as int].0 as int])) }
pub open spec fn tarea<T: PolygonScalar>(pts: Seq<Point<T, 2>>, t: (PointId, PointId, PointId)) -> real { cross3(pxy(pts[t.0.0 as int]), pxy(pts[t.1.0 as int]), pxy(pts[t.2.0 as int])) }
pub open spec fn total<T: PolygonScalar>(pts: Seq<Point<T, 2>>, ts: Seq<(PointId, PointId, PointId)>) -> real decreases ts.len() { if ts.len() == 0 { 0real } else { total(pts, ts.drop_last()) + tarea(pts, ts.last()) } }
// what the iterator has returned so far: `ts`, and the ring `s` is left
pub open spec fn so_far<T: PolygonScalar>(pts: Seq<Point<T, 2>>, ord: Seq<PointId>, ts: Seq<(PointId, PointId, PointId)>, s: Seq<usize>) -> bool {
    &&& ts.len() + s.len() == ord.len()
    &&& total(pts, ts) + area2(ptsof(pts, ord, s)) == area2(ptsof(pts, ord, upto(ord.len() as int)))
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] tarea(pts, ts[i]) > 0real
}
pub proof fn start<T: PolygonScalar>(pts: Seq<Point<T, 2>>, ord: Seq<PointId>)
    requires ord.len() <= usize::MAX
    ensures so_far(pts, ord, Seq::empty(), upto(ord.len() as int))
{ }
pub proof fn more<T: PolygonScalar>(l: List<'_, T>, ts: Seq<(PointId, PointId, PointId)>, s: Seq<usize>, k: int, out: (PointId, PointId, PointId))
    requires so_far(l.points@, l.order@, ts, s), s.len() >= 3, cuts(l, s, k, out)
    ensures so_far(l.points@, l.order@, ts.push(out), s.remove(k))
{
    let (p, o) = (l.points@, l.order@);
    cut_area(ptsof(p, o, s), k);
    assert(ptsof(p, o, s).remove(k) =~= ptsof(p, o, s.remove(k)));
    assert(ts.push(out).drop_last() =~= ts);
    assert forall|i: int| 0 <= i < ts.push(out).len() implies #[trigger] tarea(p, ts.push(out)[i]) > 0real by { if i < ts.len() { let _ = tarea(p, ts[i]); } }
}
pub proof fn done<T: PolygonScalar>(pts: Seq<Point<T, 2>>, ord: Seq<PointId>, ts: Seq<(PointId, PointId, PointId)>, s: Seq<usize>)
    requires so_far(pts, ord, ts, s), s.len() == 2
    ensures ts.len() == ord.len() - 2, total(pts, ts) == area2(ptsof(pts, ord, upto(ord.len() as int)))
{ let q = ptsof(pts, ord, s); cross2_anti(q[0], q[1]); assert(chain(q.drop_last()) == 0real); assert(q[q.len() - 2] == q[0]); }
} }
verus! {
// C16: the iterator run to its end: n - 2 counter-clockwise triangles whose areas add up to the area of the ring.
// (The calls of `next` as a loop over the function extracted above.)
#[verifier::exec_allows_no_decreases_clause]
fn earclip_run<'a, T: PolygonScalar, R: Rng>(rng: &mut R, points: &'a [Point<T>], order: &'a [PointId]) -> (r: Vec<(PointId, PointId, PointId)>)
    requires order@.len() >= 3, forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < points@.len()
    ensures
        r@.len() == order@.len() - 2, eara::total(points@, r@) == eara::area2(eara::ptsof(points@, order@, upto(order@.len() as int))),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] eara::tarea(points@, r@[i]) > 0real
{
    let (mut len, mut vertices, mut ears) = triangulate_list_init(points, order);
    let ghost mut s = upto(order@.len() as int);
    let mut ts: Vec<(PointId, PointId, PointId)> = Vec::new();
    proof { assert(order@.len() == order.len()); eara::start(points@, order@); }
    loop
        invariant_except_break eara::so_far(points@, order@, ts@, s), ring(vertices, s), len == s.len(), len >= 2, vertices.points == points, vertices.order == order, ears.ok(order@.len() as int), ears.within(s)
        ensures eara::so_far(points@, order@, ts@, s), s.len() == 2
    {
        let ghost l0 = vertices;
        match triangulate_list_step(rng, &mut len, &mut vertices, &mut ears, Ghost(s)) {
            None => break,
            Some(t) => {
                let ghost k = choose|k: int| #[trigger] cuts(l0, s, k, t) && ring(vertices, s.remove(k)) && ears.ok(l0.order@.len() as int) && ears.within(s.remove(k));
                proof { eara::more(l0, ts@, s, k, t); s = s.remove(k); }
                ts.push(t);
            }
        }
    }
    proof { eara::done(points@, order@, ts@, s); }
    ts
}
} // verus!
