// Ear clipping along the z-order: only the vertices whose hash lies between those of the triangle's box are tested.
verus! {
// the key types are Copy in the source (see ZHashable)
#[verifier::external_body]
fn zcopy<K>(k: &K) -> (r: K) ensures r == *k { unimplemented!() }

// the key covers every point of the box
pub open spec fn covers<T: ZHashable>(key: T::ZHashKey, lo: P2, hi: P2) -> bool {
    forall|x: T, y: T| lo.0 <= x.zv() <= hi.0 && lo.1 <= y.zv() <= hi.1 ==> #[trigger] T::zdom(key, x, y)
}
pub open spec fn boxed<T: PolygonScalar>(pts: Seq<Point<T, 2>>, ord: Seq<PointId>, lo: P2, hi: P2) -> bool {
    forall|i: int| 0 <= i < ord.len() ==> lo.0 <= pxy(pts[(#[trigger] ord[i]).0 as int]).0 <= hi.0 && lo.1 <= pxy(pts[ord[i].0 as int]).1 <= hi.1
}
// both traits see the same exact value
pub open spec fn zagree<T: PolygonScalar + ZHashable>() -> bool { forall|t: T| #[trigger] t.zv() == t.v() }
pub open spec fn hof<T: PolygonScalar + ZHashable>(key: T::ZHashKey, p: Point<T, 2>) -> u64 { T::zhash(key, p.array[0], p.array[1]) }
// the list carries the hashes of its points, under a key that covers them
pub open spec fn hashed<T: PolygonScalar + ZHashable>(l: List<'_, T>, key: T::ZHashKey) -> bool {
    &&& zagree::<T>() && l.hashes@.len() == l.order@.len()
    &&& exists|lo: P2, hi: P2| covers::<T>(key, lo, hi) && #[trigger] boxed(l.points@, l.order@, lo, hi)
    &&& forall|i: int| 0 <= i < l.order@.len() ==> #[trigger] l.hashes@[i] == hof::<T>(key, l.points@[l.order@[i].0 as int])
}
pub open spec fn clnk<T>(l: List<'_, T>, z: Seq<usize>, i: int) -> bool {
    l.next@[z[i] as int] == (if i + 1 < z.len() { z[i + 1] } else { usize::MAX }) && l.prev@[z[i] as int] == (if i > 0 { z[i - 1] } else { usize::MAX })
}
// z is the open list of the remaining positions, in the order of their hashes
pub open spec fn zchain<T>(l: List<'_, T>, z: Seq<usize>) -> bool {
    &&& lwf(l) && z.no_duplicates() && inlist(l, z) && l.hashes@.len() == l.order@.len()
    &&& forall|i: int| 0 <= i < z.len() ==> #[trigger] clnk(l, z, i)
    &&& forall|i: int, j: int| 0 <= i < j < z.len() ==> l.hashes@[(#[trigger] z[i]) as int] <= l.hashes@[(#[trigger] z[j]) as int]
}
pub open spec fn zat<T>(l: List<'_, T>, z: Seq<usize>, k: int, b: usize) -> bool { zchain(l, z) && 0 <= k < z.len() && b == z[k] }
// the search stops at x
pub open spec fn cond_off<T>(l: List<'_, T>, x: usize, lo: u64, hi: u64) -> bool { x == usize::MAX || !(lo <= l.hashes@[x as int] <= hi) }
pub open spec fn same_set(s: Seq<usize>, z: Seq<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) == z.contains(x) }
// the two lists hold the same positions of the same points
pub open spec fn twin<T: PolygonScalar>(l: List<'_, T>, y: List<'_, T>, s: Seq<usize>, z: Seq<usize>) -> bool {
    ring(l, s) && zchain(y, z) && same_set(s, z) && y.points == l.points && y.order == l.order
}
pub open spec fn twinned<T: PolygonScalar>(l: List<'_, T>, y: List<'_, T>, s: Seq<usize>) -> bool { exists|z: Seq<usize>| #[trigger] twin(l, y, s, z) }
// what one step does, on both lists
pub open spec fn stepped_z<T: PolygonScalar>(l: List<'_, T>, r: List<'_, T>, y: List<'_, T>, e: EarStore, s: Seq<usize>, z: Seq<usize>, out: (PointId, PointId, PointId)) -> bool {
    exists|k: int| #[trigger] cuts(l, s, k, out) && twin(r, y, s.remove(k), z.remove(z.index_of(s[k]))) && e.ok(l.order@.len() as int) && e.within(s.remove(k))
}
} // verus!
pub mod zipp { use super::*; verus! {
// positions k+1 .. k+m-1 of the chain are clear, x is the next one up
pub open spec fn up<T: PolygonScalar>(l: List<'_, T>, z: Seq<usize>, k: int, m: int, x: usize, a: usize, b: usize, c: usize) -> bool {
    &&& 1 <= m && k + m <= z.len() && x == (if k + m < z.len() { z[k + m] } else { usize::MAX })
    &&& forall|j: int| k < j < k + m ==> clear(l, a, b, c, #[trigger] z[j])
}
pub open spec fn down<T: PolygonScalar>(l: List<'_, T>, z: Seq<usize>, k: int, m: int, x: usize, a: usize, b: usize, c: usize) -> bool {
    &&& 1 <= m && 0 <= k - m + 1 && x == (if k - m >= 0 { z[k - m] } else { usize::MAX })
    &&& forall|j: int| k - m < j < k ==> clear(l, a, b, c, #[trigger] z[j])
}
pub open spec fn up_all<T: PolygonScalar>(l: List<'_, T>, m: int, x: usize, a: usize, b: usize, c: usize) -> bool { forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) ==> up(l, z, k, m, x, a, b, c) }
pub open spec fn down_all<T: PolygonScalar>(l: List<'_, T>, m: int, x: usize, a: usize, b: usize, c: usize) -> bool { forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) ==> down(l, z, k, m, x, a, b, c) }
pub open spec fn none_all<T: PolygonScalar>(l: List<'_, T>, a: usize, b: usize, c: usize) -> bool { forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) ==> !earq(l, z, a, b, c) }
pub open spec fn ear_all<T: PolygonScalar>(l: List<'_, T>, a: usize, b: usize, c: usize) -> bool { forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) ==> earq(l, z, a, b, c) }
// x is the end of the list or a member with its hash
pub open spec fn member<T>(l: List<'_, T>, x: usize) -> bool { x == usize::MAX || (x < l.order@.len() && x < l.hashes@.len()) }
pub proof fn begin<T: PolygonScalar>(l: List<'_, T>, z0: Seq<usize>, k0: int, a: usize, b: usize, c: usize)
    requires zat(l, z0, k0, b)
    ensures up_all(l, 1, l.next@[b as int], a, b, c), down_all(l, 1, l.prev@[b as int], a, b, c), member(l, l.next@[b as int]), member(l, l.prev@[b as int]), up(l, z0, k0, 1, l.next@[b as int], a, b, c), down(l, z0, k0, 1, l.prev@[b as int], a, b, c)
{
    assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies up(l, z, k, 1, l.next@[b as int], a, b, c) by { assert(clnk(l, z, k)); }
    assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies down(l, z, k, 1, l.prev@[b as int], a, b, c) by { assert(clnk(l, z, k)); }
    assert(up(l, z0, k0, 1, l.next@[b as int], a, b, c) && down(l, z0, k0, 1, l.prev@[b as int], a, b, c));
}
pub proof fn climb<T: PolygonScalar>(l: List<'_, T>, z0: Seq<usize>, k0: int, m: int, x: usize, a: usize, b: usize, c: usize)
    requires zat(l, z0, k0, b), up_all(l, m, x, a, b, c), x != usize::MAX
    ensures
        x < l.order@.len(), clear(l, a, b, c, x) ==> up_all(l, m + 1, l.next@[x as int], a, b, c) && up(l, z0, k0, m + 1, l.next@[x as int], a, b, c) && member(l, l.next@[x as int]),
        !clear(l, a, b, c, x) ==> none_all(l, a, b, c), m < z0.len() - k0
{
    assert(l.next@.len() == l.next.len());
    assert(up(l, z0, k0, m, x, a, b, c));
    if clear(l, a, b, c, x) {
        assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies up(l, z, k, m + 1, l.next@[x as int], a, b, c) by { assert(up(l, z, k, m, x, a, b, c)); assert(clnk(l, z, k + m)); }
        assert(up(l, z0, k0, m + 1, l.next@[x as int], a, b, c));
    } else {
        assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies !earq(l, z, a, b, c) by { assert(up(l, z, k, m, x, a, b, c)); assert(!clear(l, a, b, c, z[k + m])); }
    }
}
pub proof fn sink<T: PolygonScalar>(l: List<'_, T>, z0: Seq<usize>, k0: int, m: int, x: usize, a: usize, b: usize, c: usize)
    requires zat(l, z0, k0, b), down_all(l, m, x, a, b, c), x != usize::MAX
    ensures
        x < l.order@.len(), clear(l, a, b, c, x) ==> down_all(l, m + 1, l.prev@[x as int], a, b, c) && down(l, z0, k0, m + 1, l.prev@[x as int], a, b, c) && member(l, l.prev@[x as int]),
        !clear(l, a, b, c, x) ==> none_all(l, a, b, c), m <= k0
{
    assert(l.next@.len() == l.next.len());
    assert(down(l, z0, k0, m, x, a, b, c));
    if clear(l, a, b, c, x) {
        assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies down(l, z, k, m + 1, l.prev@[x as int], a, b, c) by { assert(down(l, z, k, m, x, a, b, c)); assert(clnk(l, z, k - m)); }
        assert(down(l, z0, k0, m + 1, l.prev@[x as int], a, b, c));
    } else {
        assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies !earq(l, z, a, b, c) by { assert(down(l, z, k, m, x, a, b, c)); assert(!clear(l, a, b, c, z[k - m])); }
    }
}
pub open spec fn span(a: real, b: real, c: real, x: real) -> bool { rmin2(rmin2(a, b), c) <= x <= rmax2(rmax2(a, b), c) }
proof fn within(u: real, v: real, w: real, a: real, b: real, c: real)
    requires u >= 0real, v >= 0real, w >= 0real, u + v + w == 1real
    ensures span(a, b, c, u * a + v * b + w * c)
{
    let (lo, hi) = (rmin2(rmin2(a, b), c), rmax2(rmax2(a, b), c));
    rmul_sign(u, a - lo); rmul_sign(v, b - lo); rmul_sign(w, c - lo); rmul_sign(u, hi - a); rmul_sign(v, hi - b); rmul_sign(w, hi - c);
    rd(u, a, lo); rd(v, b, lo); rd(w, c, lo); rd(u, hi, a); rd(v, hi, b); rd(w, hi, c);
    rd(lo, u, v); rd(lo, u + v, w); rd(hi, u, v); rd(hi, u + v, w); rmc(u, lo); rmc(v, lo); rmc(w, lo); rmc(u, hi); rmc(v, hi); rmc(w, hi); rmc(u + v, lo); rmc(u + v, hi);
    assert(u * lo + v * lo + w * lo == lo) by { assert(lo * (u + v + w) == lo) by(nonlinear_arith) requires u + v + w == 1real; }
    assert(u * hi + v * hi + w * hi == hi) by { assert(hi * (u + v + w) == hi) by(nonlinear_arith) requires u + v + w == 1real; }
}
// a point of the closed triangle is in its box
pub proof fn in_box(a: P2, b: P2, c: P2, p: P2)
    requires tri_closed(a, b, c, p)
    ensures span(a.0, b.0, c.0, p.0), span(a.1, b.1, c.1, p.1)
{
    let (u, v, w) = choose|u: real, v: real, w: real| u >= 0real && v >= 0real && w >= 0real && #[trigger] bary_at(a, b, c, p, u, v, w);
    within(u, v, w, a.0, b.0, c.0); within(u, v, w, a.1, b.1, c.1);
}
// the hash of a vertex that obstructs the triangle lies between those of the corners of the box
pub proof fn hash_range<T: PolygonScalar + ZHashable>(l: List<'_, T>, key: T::ZHashKey, a: usize, b: usize, c: usize, lo: Point<T, 2>, hi: Point<T, 2>)
    requires
        lwf(l), hashed(l, key), a < l.order@.len(), b < l.order@.len(), c < l.order@.len(),
        pxy(lo) == (rmin2(rmin2(lpt(l, a).0, lpt(l, b).0), lpt(l, c).0), rmin2(rmin2(lpt(l, a).1, lpt(l, b).1), lpt(l, c).1)),
        pxy(hi) == (rmax2(rmax2(lpt(l, a).0, lpt(l, b).0), lpt(l, c).0), rmax2(rmax2(lpt(l, a).1, lpt(l, b).1), lpt(l, c).1)),
    ensures
        T::zdom(key, lo.array[0], lo.array[1]), T::zdom(key, hi.array[0], hi.array[1]),
        hof::<T>(key, lo) <= l.hashes@[b as int] <= hof::<T>(key, hi),
        forall|x: usize| x < l.order@.len() && !#[trigger] clear(l, a, b, c, x) ==> hof::<T>(key, lo) <= l.hashes@[x as int] <= hof::<T>(key, hi),
{
    let (l0, h0) = choose|lo: P2, hi: P2| covers::<T>(key, lo, hi) && #[trigger] boxed(l.points@, l.order@, lo, hi);
    assert(covers::<T>(key, l0, h0) && boxed(l.points@, l.order@, l0, h0));
    let (oa, ob, oc) = (l.order@[a as int], l.order@[b as int], l.order@[c as int]);
    assert(T::zdom(key, lo.array[0], lo.array[1]) && T::zdom(key, hi.array[0], hi.array[1]));
    assert forall|x: usize| x < l.order@.len() && (x == b || !#[trigger] clear(l, a, b, c, x)) implies hof::<T>(key, lo) <= l.hashes@[x as int] <= hof::<T>(key, hi) by {
        let ox = l.order@[x as int]; let p = l.points@[ox.0 as int];
        if x != b { in_box(lpt(l, a), lpt(l, b), lpt(l, c), lpt(l, x)) }
        assert(T::zdom(key, p.array[0], p.array[1]));
        T::zhash_mono(key, lo.array[0], lo.array[1], p.array[0], p.array[1]);
        T::zhash_mono(key, p.array[0], p.array[1], hi.array[0], hi.array[1]);
    }
    let _ = clear(l, a, b, c, b);
}
// both walks have left the range of hashes: nothing is left to test
pub proof fn finish<T: PolygonScalar>(l: List<'_, T>, lo: u64, hi: u64, m: int, x: usize, d: int, y: usize, a: usize, b: usize, c: usize)
    requires
        up_all(l, m, x, a, b, c), down_all(l, d, y, a, b, c), lccw(l, a, b, c), b < l.hashes@.len(), lo <= l.hashes@[b as int] <= hi,
        x == usize::MAX || !(lo <= l.hashes@[x as int] <= hi), y == usize::MAX || !(lo <= l.hashes@[y as int] <= hi),
        forall|x: usize| x < l.order@.len() && !#[trigger] clear(l, a, b, c, x) ==> lo <= l.hashes@[x as int] <= hi,
    ensures ear_all(l, a, b, c)
{
    assert(l.next@.len() == l.next.len());
    assert forall|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, b) implies earq(l, z, a, b, c) by {
        assert(up(l, z, k, m, x, a, b, c) && down(l, z, k, d, y, a, b, c));
        assert forall|i: int| 0 <= i < z.len() implies clear(l, a, b, c, #[trigger] z[i]) by {
            if i >= k + m { assert(z[k + m] == x); assert(i == k + m || l.hashes@[z[k + m] as int] <= l.hashes@[z[i] as int]); assert(l.hashes@[z[k] as int] <= l.hashes@[z[k + m] as int]); }
            if i <= k - d { assert(z[k - d] == y); assert(i == k - d || l.hashes@[z[i] as int] <= l.hashes@[z[k - d] as int]); assert(l.hashes@[z[k - d] as int] <= l.hashes@[z[k] as int]); }
        }
    }
}
} }
verus! {
//@ fn src/algorithms/triangulation/earclip.rs | - | is_ear_hashed
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires
        a.list == b.list, b.list == c.list, exists|z: Seq<usize>, k: int| #[trigger] zat(*a.list, z, k, b.position), hashed(*a.list, key),
        a.position < a.list.order@.len(), c.position < a.list.order@.len(),
    ensures forall|z: Seq<usize>, k: int| #[trigger] zat(*a.list, z, k, b.position) ==> r == earq(*a.list, z, a.position, b.position, c.position)
//@ rewrite zhash_fn(key, =>> zhash_fn(zcopy(&key),
//@ closure 0
    -> (o: bool) requires cursor.list == a.list, zipp::member(*a.list, cursor.position) ensures o == (cursor.position != usize::MAX && min_hash <= a.list.hashes@[cursor.position as int] <= max_hash)
//@ closure 1
    -> (o: bool) requires cursor.list == a.list, cursor.position < a.list.order@.len(), lccw(*a.list, a.position, b.position, c.position) ensures o == !clear(*a.list, a.position, b.position, c.position, cursor.position)
//@ top
    let ghost (l, pa, pb, pc) = (*a.list, a.position, b.position, c.position);
    let ghost (z0, k0) = choose|z: Seq<usize>, k: int| #[trigger] zat(l, z, k, pb);
    let ghost mut m: int = 1;
    let ghost mut d: int = 1;
    proof { assert(zat(l, z0, k0, pb)); assert(z0[k0] < l.next@.len()); }
//@ after_stmt let (min, max)
    proof { zipp::hash_range(l, key, pa, pb, pc, min, max); zipp::begin(l, z0, k0, pa, pb, pc); }
//@ loop 0
    invariant
        zipp::up_all(l, m, up_focus.position, pa, pb, pc), zipp::down_all(l, d, down_focus.position, pa, pb, pc), zipp::member(l, up_focus.position), zipp::member(l, down_focus.position), *up_focus.list == l, *down_focus.list == l,
        zipp::up(l, z0, k0, m, up_focus.position, pa, pb, pc)
    decreases z0.len() - m
//@ loop_top 0
    proof { zipp::climb(l, z0, k0, m, up_focus.position, pa, pb, pc); zipp::sink(l, z0, k0, d, down_focus.position, pa, pb, pc); m = m + 1; d = d + 1; }
//@ loop 1
    invariant zipp::up_all(l, m, up_focus.position, pa, pb, pc), zipp::member(l, up_focus.position), *up_focus.list == l, zipp::up(l, z0, k0, m, up_focus.position, pa, pb, pc)
    decreases z0.len() - m
//@ loop_top 1
    proof { zipp::climb(l, z0, k0, m, up_focus.position, pa, pb, pc); m = m + 1; }
//@ loop 2
    invariant cond_off(l, down_focus.position, min_hash, max_hash) ==> zipp::ear_all(l, pa, pb, pc), zipp::down_all(l, d, down_focus.position, pa, pb, pc), zipp::member(l, down_focus.position), *down_focus.list == l
    decreases k0 - d + 1
//@ loop_top 2
    proof { zipp::sink(l, z0, k0, d, down_focus.position, pa, pb, pc); d = d + 1; }
//@ loop_bottom 2
    proof { if cond_off(l, down_focus.position, min_hash, max_hash) { zipp::finish(l, min_hash, max_hash, m, up_focus.position, d, down_focus.position, pa, pb, pc); } }
//@ before while cond(down_focus)
    proof { if cond_off(l, down_focus.position, min_hash, max_hash) { zipp::finish(l, min_hash, max_hash, m, up_focus.position, d, down_focus.position, pa, pb, pc); } }
//@ end
} // verus!
pub mod zipq { use super::*; verus! {
// v lists every position below n exactly once, in the order of the keys
pub open spec fn perm(v: Seq<usize>, n: int) -> bool { v.len() == n && v.no_duplicates() && forall|x: usize| x < n ==> #[trigger] v.contains(x) && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n }
pub open spec fn keyed(v: Seq<usize>, keys: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> keys[(#[trigger] v[i]) as int] <= keys[(#[trigger] v[j]) as int] }
pub proof fn sorted_perm(v: Seq<usize>, n: int)
    requires 0 <= n <= usize::MAX, v.to_multiset() == upto(n).to_multiset(), v.len() == n
    ensures v.no_duplicates(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n, forall|x: usize| x < n ==> #[trigger] v.contains(x), same_set(upto(n), v)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let u = upto(n);
    assert forall|x: usize| x < n implies #[trigger] v.contains(x) by { assert(u[x as int] == x); assert(u.contains(x)); assert(u.to_multiset().contains(x)); assert(v.to_multiset().contains(x)); }
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < n by { assert(v.contains(v[i])); assert(v.to_multiset().contains(v[i])); assert(u.to_multiset().contains(v[i])); assert(u.contains(v[i])); }
    u.lemma_multiset_has_no_duplicates();
    v.lemma_multiset_has_no_duplicates_conv();
    assert forall|x: usize| #[trigger] u.contains(x) == v.contains(x) by {
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(v[i] < n); assert(u[x as int] == x); }
        if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(x < n); }
    }
}
// next and prev link the first i places of v in a circle
pub open spec fn linked_upto(next: Seq<usize>, prev: Seq<usize>, v: Seq<usize>, i: int) -> bool {
    next.len() == v.len() && prev.len() == v.len() && forall|j: int| 0 <= j < i ==> #[trigger] linked_at(next, prev, v, j)
}
pub open spec fn linked_at(next: Seq<usize>, prev: Seq<usize>, v: Seq<usize>, j: int) -> bool { next[v[j] as int] == v[nxi(j, v.len() as int)] && prev[v[nxi(j, v.len() as int)] as int] == v[j] }
pub proof fn link_one(next: Seq<usize>, prev: Seq<usize>, v: Seq<usize>, i: int)
    requires linked_upto(next, prev, v, i), 0 <= i < v.len(), v.no_duplicates(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < v.len()
    ensures linked_upto(next.update(v[i] as int, v[nxi(i, v.len() as int)]), prev.update(v[nxi(i, v.len() as int)] as int, v[i]), v, i + 1)
{
    let n = v.len() as int;
    let (a, b) = (next.update(v[i] as int, v[nxi(i, n)]), prev.update(v[nxi(i, n)] as int, v[i]));
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] linked_at(a, b, v, j) by {
        assert(v[i] < n && v[nxi(i, n)] < n);
        if j < i { assert(linked_at(next, prev, v, j)); assert(v[j] != v[i]); assert(nxi(i, n) != nxi(j, n)); assert(v[nxi(j, n)] != v[nxi(i, n)]); }
    }
}
pub proof fn open_up<T>(l: List<'_, T>, v: Seq<usize>, next: Seq<usize>, prev: Seq<usize>)
    requires
        linked_upto(next, prev, v, v.len() as int), v.len() > 0, v.no_duplicates(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < v.len(), lwf(l), l.order@.len() == v.len(), l.hashes@.len() == v.len(),
        l.next@ == next.update(v[v.len() - 1] as int, usize::MAX), l.prev@ == prev.update(v[0] as int, usize::MAX), keyed(v, l.hashes@),
    ensures zchain(l, v)
{
    let n = v.len() as int;
    assert(v[0] < n && v[n - 1] < n);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] clnk(l, v, i) by {
        assert(linked_at(next, prev, v, i)); assert(v[i] < n);
        if i > 0 { assert(linked_at(next, prev, v, i - 1)); assert(v[i] != v[0]); }
        if i < n - 1 { assert(v[i] != v[n - 1]); }
    }
}
// an element taken out of the chain
pub proof fn cut_chain<T>(l: List<'_, T>, r: List<'_, T>, z: Seq<usize>, k: int)
    requires zchain(l, z), 0 <= k < z.len(), unlink(l, r, z[k] as int)
    ensures zchain(r, z.remove(k))
{
    let n = z.len() as int; let t = z.remove(k);
    assert(l.next@.len() == l.next.len());
    assert(clnk(l, z, k));
    if k > 0 { assert(z[k - 1] < l.next@.len()); } if k + 1 < n { assert(z[k + 1] < l.next@.len()); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { let i2 = if i < k { i } else { i + 1 }; let j2 = if j < k { j } else { j + 1 }; assert(z[i2] != z[j2]); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < r.next@.len() by { let i2 = if i < k { i } else { i + 1 }; assert(z[i2] < l.next@.len()); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] clnk(r, t, i) by {
        let i2 = if i < k { i } else { i + 1 };
        assert(t[i] == z[i2]); assert(clnk(l, z, i2)); assert(z[i2] < l.next@.len());
        assert(k == 0 || z[i2] != z[k - 1] || i2 == k - 1); assert(k + 1 >= n || z[i2] != z[k + 1] || i2 == k + 1);
        if i > 0 { assert(t[i - 1] == z[if i - 1 < k { i - 1 } else { i }]); }
        if i + 1 < t.len() { assert(t[i + 1] == z[if i + 1 < k { i + 1 } else { i + 2 }]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies r.hashes@[(#[trigger] t[i]) as int] <= r.hashes@[(#[trigger] t[j]) as int] by {
        let i2 = if i < k { i } else { i + 1 }; let j2 = if j < k { j } else { j + 1 };
        assert(l.hashes@[z[i2] as int] <= l.hashes@[z[j2] as int]);
    }
}
pub proof fn same_cut(s: Seq<usize>, z: Seq<usize>, k: int, m: int)
    requires same_set(s, z), s.no_duplicates(), z.no_duplicates(), 0 <= k < s.len(), 0 <= m < z.len(), s[k] == z[m]
    ensures same_set(s.remove(k), z.remove(m))
{
    let (a, b) = (s.remove(k), z.remove(m));
    assert forall|x: usize| #[trigger] a.contains(x) == b.contains(x) by { rem(s, k, x); rem(z, m, x); assert(s.contains(x) == z.contains(x)); }
}
proof fn rem(s: Seq<usize>, k: int, x: usize) requires s.no_duplicates(), 0 <= k < s.len() ensures s.remove(k).contains(x) == (s.contains(x) && x != s[k])
{
    let t = s.remove(k);
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[if i < k { i } else { i + 1 }] == x); }
    if s.contains(x) && x != s[k] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[if i < k { i } else { i - 1 }] == x); }
}
// testing the chain is testing the ring
pub proof fn same_ear<T: PolygonScalar>(l: List<'_, T>, y: List<'_, T>, s: Seq<usize>, z: Seq<usize>, a: usize, b: usize, c: usize)
    requires same_set(s, z), y.points == l.points, y.order == l.order
    ensures earq(l, s, a, b, c) == earq(y, z, a, b, c)
{
    if earq(l, s, a, b, c) { assert forall|i: int| 0 <= i < z.len() implies clear(y, a, b, c, #[trigger] z[i]) by { assert(z.contains(z[i])); assert(s.contains(z[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == z[i]; assert(clear(l, a, b, c, s[j])); } }
    if earq(y, z, a, b, c) { assert forall|i: int| 0 <= i < s.len() implies clear(l, a, b, c, #[trigger] s[i]) by { assert(s.contains(s[i])); assert(z.contains(s[i])); let j = choose|j: int| 0 <= j < z.len() && z[j] == s[i]; assert(clear(y, a, b, c, z[j])); } }
}
} }
verus! {
impl<'a, T> List<'a, T> {
//@ fn src/algorithms/triangulation/earclip.rs | impl List<'a, T> | new_sorted
//@ ret r
//@ spec
    requires order@.len() > 0, keys@.len() == order@.len(), forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < points@.len()
    ensures
        r.points == points, r.order == order, r.hashes == keys, exists|z: Seq<usize>| #[trigger] zchain(r, z) && same_set(upto(order@.len() as int), z)
//@ closure 0
    -> (o: u64) requires *vx_p1 < keys@.len() ensures o == keys@[*vx_p1 as int]
//@ top
    let ghost ks = keys@;
//@ before v.sort_unstable_by_key(
    proof { assert(v@ =~= upto(size as int)); }
//@ after_stmt v.sort_unstable_by_key(
    let ghost z = v@;
    proof {
        assert(z.len() == size && ks.len() == size);
        zipq::sorted_perm(z, size as int);
        assert(zipq::keyed(z, ks));
    }
//@ loop 0
    invariant size == z.len(), v@ == z, z.no_duplicates(), forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] < z.len(), zipq::linked_upto(next@, prev@, z, i as int)
//@ loop_top 0
    proof { earp::modlem(i as int + 1, size as int); assert(z[i as int] < size && z[nxi(i as int, size as int)] < size); zipq::link_one(next@, prev@, z, i as int); }
//@ before next[v[size - 1]]
    let ghost (n0, p0) = (next@, prev@);
//@ tail res
    proof { zipq::open_up(res, z, n0, p0); assert(zchain(res, z)); }
//@ end
}
pub open spec fn zbox_ok<T: PolygonScalar>(b: ZHashBox<'_, T>, pts: Seq<Point<T, 2>>, ord: Seq<PointId>, k: int) -> bool {
    &&& b.min_x.v() <= b.max_x.v() && b.min_y.v() <= b.max_y.v()
    &&& forall|i: int| 0 <= i < k ==> b.min_x.v() <= pxy(pts[(#[trigger] ord[i]).0 as int]).0 <= b.max_x.v() && b.min_y.v() <= pxy(pts[ord[i].0 as int]).1 <= b.max_y.v()
}
pub proof fn porder<T: PolygonScalar>()
    ensures <T as PartialOrdSpec>::obeys_partial_cmp_spec(), forall|a: T, b: T| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(rcmp(a.v(), b.v()))
{
    assert forall|a: T, b: T| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(rcmp(a.v(), b.v())) by { T::scalar_laws(a, b); }
    T::scalar_laws(arbitrary(), arbitrary());
}
//@ fn src/algorithms/triangulation/earclip.rs | - | zbox_slice
//@ ret r
//@ spec
    requires order@.len() > 0, forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < slice@.len()
    ensures zbox_ok(r, slice@, order@, order@.len() as int)
//@ top
    proof { porder::<T>(); let _ = order@[0]; }
//@ loop 0 iter it
    invariant zbox_ok(zbox, slice@, order@, it.index@ as int), forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < slice@.len()
//@ loop_top 0
    proof { porder::<T>(); }
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | - | triangulate_list_hashed | part=init | rename=triangulate_list_hashed_init
//@ gsig fn triangulate_list_hashed_init<'a, T: PolygonScalar + ZHashable>(points: &'a [Point<T>], order: &'a [PointId]) -> (r: (usize, List<'a, T>, EarStore, List<'a, T>, T::ZHashKey))
//@ init_ret (len, vertices, possible_ears, zorder, key)
//@ rewrite zhash_fn(key, =>> zhash_fn(zcopy(&key),
//@ rewrite .map( =>> .vmap(
//@ spec
    requires order@.len() > 0, zagree::<T>(), forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < points@.len()
    ensures
        r.0 == order@.len(), r.1.points == points, r.1.order == order, hashed(r.3, r.4), r.2.ok(order@.len() as int), r.2.within(upto(r.0 as int)),
        twinned(r.1, r.3, upto(r.0 as int))
//@ closure 0
    -> (o: u64) requires (*vx_p1).0 < points@.len(), T::zdom(key, points@[(*vx_p1).0 as int].array[0], points@[(*vx_p1).0 as int].array[1]) ensures o == hof::<T>(key, points@[(*vx_p1).0 as int])
//@ after_stmt let key
    let ghost lo = (zbox.min_x.v(), zbox.min_y.v());
    let ghost hi = (zbox.max_x.v(), zbox.max_y.v());
    proof {
        assert(covers::<T>(key, lo, hi)); assert(boxed(points@, order@, lo, hi));
        assert forall|i: int| 0 <= i < order@.len() implies T::zdom(key, points@[(#[trigger] order@[i]).0 as int].array[0], points@[order@[i].0 as int].array[1]) by { }
    }
//@ tail res
    proof {
        let z = choose|z: Seq<usize>| #[trigger] zchain(zorder, z) && same_set(upto(order@.len() as int), z);
        assert(twin(vertices, zorder, upto(len as int), z));
        assert(boxed(zorder.points@, zorder.order@, lo, hi));
        assert forall|i: int| 0 <= i < order@.len() implies #[trigger] zorder.hashes@[i] == hof::<T>(key, points@[order@[i].0 as int]) by { }
        assert(hashed(zorder, key));
    }
//@ end
//@ fn src/algorithms/triangulation/earclip.rs | - | triangulate_list_hashed | part=step | rename=triangulate_list_hashed_step
//@ gsig fn triangulate_list_hashed_step<'a, T: PolygonScalar + ZHashable, R: Rng>(order: &'a [PointId], rng: &mut R, len: &mut usize, vertices: &mut List<'a, T>, possible_ears: &mut EarStore, zorder: &mut List<'a, T>, key: T::ZHashKey, Ghost(s): Ghost<Seq<usize>>, Ghost(z): Ghost<Seq<usize>>) -> (r: Option<(PointId, PointId, PointId)>)
//@ rewrite is_ear_hashed( key , =>> is_ear_hashed( zcopy(&key) ,
//@ spec
    requires *old(len) > 0 ==> twin(*old(vertices), *old(zorder), s, z), hashed(*old(zorder), key), order == old(vertices).order, *old(len) == s.len(), old(possible_ears).ok(old(vertices).order@.len() as int), old(possible_ears).within(s)
    ensures
        final(vertices).points == old(vertices).points, final(vertices).order == old(vertices).order, hashed(*final(zorder), key),
        r is None <==> *old(len) <= 2,
        match r { None => *final(len) == *old(len), Some(out) => *final(len) == s.len() - 1 && stepped_z(*old(vertices), *final(vertices), *final(zorder), *final(possible_ears), s, z, out) },
//@ loop 0
    invariant
        *len == s.len(), *len == *old(len), s.len() >= 3, twin(*vertices, *zorder, s, z), hashed(*zorder, key), order == vertices.order, *vertices == *old(vertices), *zorder == *old(zorder),
        possible_ears.ok(vertices.order@.len() as int), possible_ears.within(s)
    decreases possible_ears.v().len()
//@ after_stmt let focus
    let ghost k = choose|k: int| 0 <= k < s.len() && s[k] == focus;
    let ghost n = s.len() as int;
    let ghost m = z.index_of(focus);
    proof {
        assert(s.contains(focus)); assert(z.contains(focus)); assert(lnk(*vertices, s, k));
        assert(s[pvi(k, n)] < vertices.next@.len() && s[nxi(k, n)] < vertices.next@.len() && s[k] < vertices.next@.len());
        assert(zat(*zorder, z, m, focus));
        zipq::same_ear(*vertices, *zorder, s, z, s[pvi(k, n)], focus, s[nxi(k, n)]);
    }
//@ before vertices.delete(
    let ghost l0 = *vertices;
    let ghost y0 = *zorder;
    proof { assert(clnk(*zorder, z, m)); assert(zorder.next@.len() == zorder.next.len()); if m > 0 { assert(z[m - 1] < zorder.next@.len()); } if m + 1 < z.len() { assert(z[m + 1] < zorder.next@.len()); } }
//@ before return Some(
    proof {
        earw::cut_ring(l0, *vertices, s, k); earw::cut_store(*possible_ears, *possible_ears, s, k, l0.order@.len() as int);
        zipq::cut_chain(y0, *zorder, z, m); zipq::same_cut(s, z, k, m);
        let (lo, hi) = choose|lo: P2, hi: P2| covers::<T>(key, lo, hi) && #[trigger] boxed(y0.points@, y0.order@, lo, hi);
        assert(boxed(zorder.points@, zorder.order@, lo, hi));
        assert forall|i: int| 0 <= i < zorder.order@.len() implies #[trigger] zorder.hashes@[i] == hof::<T>(key, zorder.points@[zorder.order@[i].0 as int]) by { let _ = y0.hashes@[i]; }
        assert(cuts(*old(vertices), s, k, out)); assert(twin(*vertices, *zorder, s.remove(k), z.remove(m)));
        assert(stepped_z(*old(vertices), *vertices, *zorder, *possible_ears, s, z, out));
    }
//@ end
// C16: the hashed iterator run to its end.
#[verifier::exec_allows_no_decreases_clause]
fn earclip_hashed_run<'a, T: PolygonScalar + ZHashable, R: Rng>(rng: &mut R, points: &'a [Point<T>], order: &'a [PointId]) -> (r: Vec<(PointId, PointId, PointId)>)
    requires order@.len() >= 3, zagree::<T>(), forall|i: int| 0 <= i < order@.len() ==> (#[trigger] order@[i]).0 < points@.len()
    ensures
        r@.len() == order@.len() - 2, eara::total(points@, r@) == eara::area2(eara::ptsof(points@, order@, upto(order@.len() as int))),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] eara::tarea(points@, r@[i]) > 0real
{
    let (mut len, mut vertices, mut ears, mut zorder, key) = triangulate_list_hashed_init(points, order);
    let ghost mut s = upto(order@.len() as int);
    let ghost mut z = choose|z: Seq<usize>| #[trigger] twin(vertices, zorder, s, z);
    let mut ts: Vec<(PointId, PointId, PointId)> = Vec::new();
    proof { assert(order@.len() == order.len()); eara::start(points@, order@); assert(twin(vertices, zorder, s, z)); }
    loop
        invariant_except_break
            eara::so_far(points@, order@, ts@, s), twin(vertices, zorder, s, z), hashed(zorder, key), len == s.len(), len >= 2, vertices.points == points, vertices.order == order, ears.ok(order@.len() as int), ears.within(s)
        ensures eara::so_far(points@, order@, ts@, s), s.len() == 2
    {
        let ghost l0 = vertices;
        match triangulate_list_hashed_step(order, rng, &mut len, &mut vertices, &mut ears, &mut zorder, zcopy(&key), Ghost(s), Ghost(z)) {
            None => break,
            Some(t) => {
                let ghost k = choose|k: int| #[trigger] cuts(l0, s, k, t) && twin(vertices, zorder, s.remove(k), z.remove(z.index_of(s[k]))) && ears.ok(l0.order@.len() as int) && ears.within(s.remove(k));
                proof { eara::more(l0, ts@, s, k, t); z = z.remove(z.index_of(s[k])); s = s.remove(k); }
                ts.push(t);
            }
        }
    }
    proof { eara::done(points@, order@, ts@, s); }
    ts
}
} // verus!
