// Building a monotone polygon from any list of points.
verus! {
use std::collections::VecDeque;
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [ <[T]>::sort_by ] (s: &mut [T], f: F)
    requires cmp_preorder(f)
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), cmp_sorted(f, final(s)@);
// consecutive equal elements dropped
pub open spec fn dedup_of<T: PartialEq>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let r = dedup_of(s.drop_last()); if r.len() > 0 && PartialEqSpec::eq_spec(&s.last(), &r.last()) { r } else { r.push(s.last()) } }
}
pub assume_specification<T: PartialEq, A: std::alloc::Allocator> [ Vec::<T, A>::dedup ] (v: &mut Vec<T, A>)
    requires <T as PartialEqSpec>::obeys_eq_spec()
    ensures final(v)@ == dedup_of(old(v)@);
pub assume_specification<T, A: std::alloc::Allocator>[ <Vec<T, A> as From<VecDeque<T, A>>>::from ](d: VecDeque<T, A>) -> (r: Vec<T, A>) ensures r@ == d@;
pub open spec fn point_cloned<T: Clone, const N: usize>(a: Point<T, N>, b: Point<T, N>) -> bool { forall|i: int| 0 <= i < N ==> cloned(#[trigger] a.array@[i], b.array@[i]) }
// derived Clone clones every coordinate
impl<T: Clone, const N: usize> Clone for Point<T, N> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures point_cloned(*self, r) { unimplemented!() }
}
} // verus!
pub mod mong { use super::*; use super::mono::*; use super::colinear::*; verus! {
pub proof fn pclone<T: PolygonScalar>() ensures forall|a: Point<T, 2>, b: Point<T, 2>| #[trigger] point_cloned(a, b) ==> pxy(a) == pxy(b)
{
    assert forall|a: Point<T, 2>, b: Point<T, 2>| #[trigger] point_cloned(a, b) implies pxy(a) == pxy(b) by {
        assert(cloned(a.array@[0], b.array@[0]) && cloned(a.array@[1], b.array@[1]));
        T::scalar_laws(a.array[0], b.array[0]); T::scalar_laws(a.array[1], b.array[1]);
    }
}
pub open spec fn msorted(d: P2, w: Seq<P2>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> mcmp(d, #[trigger] w[i], #[trigger] w[j]) != Ordering::Greater }
pub open spec fn mstrict(d: P2, w: Seq<P2>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> mless(d, #[trigger] w[i], #[trigger] w[j]) }
// dedup of a sorted list: the same points, strictly ascending
pub proof fn strict<T: PolygonScalar>(d: P2, s: Seq<Point<T, 2>>)
    requires msorted(d, pxs(s))
    ensures mstrict(d, pxs(dedup_of(s))), same_set(pxs(s), pxs(dedup_of(s))), s.len() > 0 ==> dedup_of(s).len() > 0 && pxy(dedup_of(s).last()) == pxy(s.last()), dedup_of(s).len() <= s.len()
    decreases s.len()
{
    hide(mcmp);
    if s.len() > 0 {
        let t = s.drop_last(); let r = dedup_of(t); let x = s.last(); let q = dedup_of(s);
        let (ps, pt, pr, pq) = (pxs(s), pxs(t), pxs(r), pxs(q));
        assert forall|i: int, j: int| 0 <= i < j < pt.len() implies mcmp(d, #[trigger] pt[i], #[trigger] pt[j]) != Ordering::Greater by { assert(ps[i] == pt[i] && ps[j] == pt[j]); }
        strict(d, t);
        assert(ps[s.len() - 1] == pxy(x));
        if r.len() > 0 {
            let n = t.len() as int;
            assert(n > 0);
            assert(ps[n - 1] == pxy(t.last()) && pr[r.len() - 1] == pxy(t.last()));
            mcmp_laws(d, pxy(t.last()), pxy(x), pxy(x));
            point_eq(x, r.last());
        }
        if r.len() > 0 && PartialEqSpec::eq_spec(&x, &r.last()) {
            assert(q == r);
            assert forall|i: int| 0 <= i < ps.len() implies pq.contains(#[trigger] ps[i]) by { if i < pt.len() { assert(pt[i] == ps[i]); assert(pr.contains(pt[i])); } else { assert(pr[r.len() - 1] == ps[i]); } }
        } else {
            assert(q == r.push(x));
            assert forall|i: int| 0 <= i < r.len() implies #[trigger] pq[i] == pr[i] by { }
            assert(pq[r.len() as int] == pxy(x));
            assert forall|i: int, j: int| 0 <= i < j < pq.len() implies mless(d, #[trigger] pq[i], #[trigger] pq[j]) by {
                if j < r.len() { assert(mless(d, pr[i], pr[j])); } else { mcmp_laws(d, pr[i], pr[r.len() - 1], pxy(x)); if i < r.len() - 1 { assert(mless(d, pr[i], pr[r.len() - 1])); } }
            }
            assert forall|i: int| 0 <= i < ps.len() implies pq.contains(#[trigger] ps[i]) by { if i < pt.len() { assert(pt[i] == ps[i]); assert(pr.contains(pt[i])); let k = choose|k: int| 0 <= k < pr.len() && pr[k] == pt[i]; assert(pq[k] == ps[i]); } else { assert(pq[r.len() as int] == ps[i]); } }
        }
        assert forall|i: int| 0 <= i < pq.len() implies ps.contains(#[trigger] pq[i]) by {
            if i < r.len() { assert(pr[i] == pq[i]); assert(pt.contains(pr[i])); let k = choose|k: int| 0 <= k < pt.len() && pt[k] == pr[i]; assert(ps[k] == pq[i]); } else { assert(ps[s.len() - 1] == pq[i]); }
        }
    }
}
pub proof fn flat_over(a: Seq<P2>, b: Seq<P2>)
    requires same_set(a, b)
    ensures flat(a) == flat(b)
{
    hide(cross3);
    if flat(b) { flat_sub(a, b); }
    if flat(a) { flat_sub(b, a); }
}
proof fn flat_sub(a: Seq<P2>, b: Seq<P2>)
    requires forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]), flat(b)
    ensures flat(a)
{
    hide(cross3);
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < a.len() && 0 <= k < a.len() implies cross3(#[trigger] a[i], #[trigger] a[j], #[trigger] a[k]) == 0real by {
        let x = choose|x: int| 0 <= x < b.len() && b[x] == a[i]; let y = choose|x: int| 0 <= x < b.len() && b[x] == a[j]; let z = choose|x: int| 0 <= x < b.len() && b[x] == a[k];
        assert(b.contains(a[i]) && b.contains(a[j]) && b.contains(a[k]));
        assert(cross3(b[x], b[y], b[z]) == 0real);
    }
}
pub proof fn few(s: Seq<P2>) requires s.len() < 3 ensures flat(s)
{
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() implies cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real by {
        cross3_sym(s[i], s[j], s[k]); if i == j { cross3_sym(s[i], s[i], s[k]); } else if j == k { cross3_sym(s[i], s[j], s[j]); } else { cross3_sym(s[i], s[j], s[i]); }
    }
}
// every point on one line
pub proof fn on_line(lo: P2, hi: P2, s: Seq<P2>)
    requires lo != hi, forall|i: int| 0 <= i < s.len() ==> cross3(lo, hi, #[trigger] s[i]) == 0real
    ensures flat(s)
{
    let u = psub(hi, lo);
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() implies cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real by {
        let (a, b, c) = (psub(s[i], lo), psub(s[j], lo), psub(s[k], lo));
        assert(cross2(u, a) == 0real && cross2(u, b) == 0real && cross2(u, c) == 0real) by { assert(cross3(lo, hi, s[i]) == 0real && cross3(lo, hi, s[j]) == 0real && cross3(lo, hi, s[k]) == 0real); }
        cross2_sub(u, b, a); cross2_sub(u, c, a);
        parallel(u, psub(b, a), psub(c, a));
        assert(psub(b, a) == psub(s[j], s[i]) && psub(c, a) == psub(s[k], s[i]));
    }
}
proof fn low_of(v: Seq<P2>, m: int) -> (k: int)
    requires 0 < m <= v.len()
    ensures 0 <= k < m, forall|j: int| 0 <= j < m ==> plex(v[k], #[trigger] v[j]) != Ordering::Greater
    decreases m
{
    if m == 1 { 0 } else { let k = low_of(v, m - 1); if plex(v[k], v[m - 1]) != Ordering::Greater { k } else { assert forall|j: int| 0 <= j < m implies plex(v[m - 1], #[trigger] v[j]) != Ordering::Greater by { if j < m - 1 { assert(plex(v[k], v[j]) != Ordering::Greater); } } m - 1 } }
}
// a simple ring is not flat
pub proof fn not_flat(v: Seq<P2>)
    requires simple_ring(v)
    ensures !flat(v)
{
    hide(apart); hide(no_dup);
    if flat(v) {
        let n = v.len() as int;
        let k = low_of(v, n);
        let (i, j) = (wrapi(k - 1, n), wrapi(k + 1, n));
        assert(cross3(v[i], v[k], v[j]) == 0real);
        newp::flat_low(v, k);
    }
}
// ---- the two chains as they are built, from the greatest point down
pub open spec fn rightp(lo: P2, hi: P2, hr: bool, q: P2) -> bool { cross3(lo, hi, q) < 0real || (!hr && cross3(lo, hi, q) == 0real) }
pub open spec fn built(d: P2, w: Seq<P2>, m: int, v: Seq<P2>, r: int, hr: bool) -> bool {
    let n = w.len() as int; let (lo, hi) = (w[0], w[n - 1]);
    &&& 0 <= m <= n && v.len() == n - m && 0 <= r <= v.len() && n >= 3
    &&& forall|i: int, j: int| 0 <= i < j < r ==> mless(d, #[trigger] v[i], #[trigger] v[j])
    &&& forall|i: int, j: int| r <= i < j < v.len() ==> mless(d, #[trigger] v[j], #[trigger] v[i])
    &&& forall|i: int| 0 <= i < v.len() ==> rightp(lo, hi, hr, #[trigger] v[i]) == (i < r)
    &&& forall|i: int| 0 <= i < v.len() ==> from(w, m, #[trigger] v[i])
    &&& forall|k: int| m <= k < n ==> v.contains(#[trigger] w[k])
    &&& m < n ==> if hr { r < v.len() && v[r] == hi } else { r > 0 && v[r - 1] == hi }
    &&& m == 0 ==> if hr { v[n - 1] == lo } else { v[0] == lo }
}
pub open spec fn from(w: Seq<P2>, m: int, q: P2) -> bool { exists|k: int| m <= k < w.len() && #[trigger] w[k] == q }
pub proof fn begin<T: PolygonScalar>(d: P2, s: Seq<Point<T, 2>>, hr: bool)
    requires s.len() >= 3, mstrict(d, pxs(s))
    ensures state(d, pxs(s), s, Seq::<Point<T, 2>>::empty(), hr)
{ let w = pxs(s); assert(pxs(Seq::<Point<T, 2>>::empty()) =~= Seq::empty()); assert(built(d, w, w.len() as int, Seq::empty(), 0, hr)); assert(w.take(w.len() as int) =~= w); }
pub open spec fn front(q: P2, v: Seq<P2>) -> Seq<P2> { seq![q] + v }
proof fn step_line(w: Seq<P2>, m: int, hr: bool)
    requires w.len() >= 3, 0 < m <= w.len()
    ensures m == 1 || m == w.len() ==> rightp(w[0], w[w.len() - 1], hr, w[m - 1]) == !hr
{ let (lo, hi) = (w[0], w[w.len() - 1]); cross3_sym(lo, hi, lo); cross3_sym(lo, hi, hi); }
pub proof fn to_front(d: P2, w: Seq<P2>, m: int, v: Seq<P2>, r: int, hr: bool)
    requires mstrict(d, w), built(d, w, m, v, r, hr), m > 0, rightp(w[0], w[w.len() - 1], hr, w[m - 1])
    ensures built(d, w, m - 1, front(w[m - 1], v), r + 1, hr)
{
    hide(mless); hide(rightp);
    let u = front(w[m - 1], v); let n = w.len() as int; let q = w[m - 1];
    step_line(w, m, hr);
    assert(u[0] == q);
    assert forall|i: int| 0 <= i < v.len() implies u[i + 1] == v[i] by { }
    assert forall|i: int| 1 <= i < u.len() implies #[trigger] u[i] == v[i - 1] by { }
    assert forall|i: int, j: int| 0 <= i < j < r + 1 implies mless(d, #[trigger] u[i], #[trigger] u[j]) by {
        assert(from(w, m, v[j - 1]));
        if i == 0 { let k = choose|k: int| m <= k < n && #[trigger] w[k] == v[j - 1]; assert(mless(d, w[m - 1], w[k])); } else { assert(mless(d, v[i - 1], v[j - 1])); }
    }
    assert forall|i: int, j: int| r + 1 <= i < j < u.len() implies mless(d, #[trigger] u[j], #[trigger] u[i]) by { assert(mless(d, v[j - 1], v[i - 1])); }
    assert forall|i: int| 0 <= i < u.len() implies from(w, m - 1, #[trigger] u[i]) by { if i > 0 { assert(from(w, m, v[i - 1])); let k = choose|k: int| m <= k < n && #[trigger] w[k] == v[i - 1]; assert(w[k] == u[i]); } else { assert(w[m - 1] == u[i]); } }
    assert forall|k: int| m - 1 <= k < n implies u.contains(#[trigger] w[k]) by { if k >= m { assert(v.contains(w[k])); let i = choose|i: int| 0 <= i < v.len() && v[i] == w[k]; assert(u[i + 1] == w[k]); } else { assert(u[0] == w[k]); } }
    assert forall|i: int| 0 <= i < u.len() implies rightp(w[0], w[n - 1], hr, #[trigger] u[i]) == (i < r + 1) by { if i > 0 { assert(rightp(w[0], w[n - 1], hr, v[i - 1]) == (i - 1 < r)); } }
    if m < n { if hr { assert(u[r + 1] == v[r]); } else { assert(u[r] == v[r - 1]); } }
}
pub proof fn to_back(d: P2, w: Seq<P2>, m: int, v: Seq<P2>, r: int, hr: bool)
    requires mstrict(d, w), built(d, w, m, v, r, hr), m > 0, !rightp(w[0], w[w.len() - 1], hr, w[m - 1])
    ensures built(d, w, m - 1, v.push(w[m - 1]), r, hr)
{
    hide(mless); hide(rightp);
    let u = v.push(w[m - 1]); let n = w.len() as int; let q = w[m - 1];
    step_line(w, m, hr);
    assert(u[v.len() as int] == q);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] u[i] == v[i] by { }
    assert forall|i: int, j: int| 0 <= i < j < r implies mless(d, #[trigger] u[i], #[trigger] u[j]) by { assert(mless(d, v[i], v[j])); }
    assert forall|i: int, j: int| r <= i < j < u.len() implies mless(d, #[trigger] u[j], #[trigger] u[i]) by {
        if j < v.len() { assert(mless(d, v[j], v[i])); } else { assert(from(w, m, v[i])); let k = choose|k: int| m <= k < n && #[trigger] w[k] == v[i]; assert(mless(d, w[m - 1], w[k])); }
    }
    assert forall|i: int| 0 <= i < u.len() implies from(w, m - 1, #[trigger] u[i]) by { if i < v.len() { assert(from(w, m, v[i])); let k = choose|k: int| m <= k < n && #[trigger] w[k] == v[i]; assert(w[k] == u[i]); } else { assert(w[m - 1] == u[i]); } }
    assert forall|k: int| m - 1 <= k < n implies u.contains(#[trigger] w[k]) by { if k >= m { assert(v.contains(w[k])); let i = choose|i: int| 0 <= i < v.len() && v[i] == w[k]; assert(u[i] == w[k]); } else { assert(u[v.len() as int] == w[k]); } }
    assert forall|i: int| 0 <= i < u.len() implies rightp(w[0], w[n - 1], hr, #[trigger] u[i]) == (i < r) by { if i < v.len() { assert(rightp(w[0], w[n - 1], hr, v[i]) == (i < r)); } }
    if m < n { if hr { assert(u[r] == v[r]); } else { assert(u[r - 1] == v[r - 1]); } }
}
pub proof fn known<T: PolygonScalar>(w: Seq<P2>, s: Seq<Point<T, 2>>, hr: bool)
    requires w == pxs(s)
    ensures right_known(w, hr) == (hr == exists|i: int| 0 <= i < s.len() && cross3(w[0], w[w.len() - 1], pxy(#[trigger] s[i])) < 0real)
{
    if exists|i: int| 0 <= i < w.len() && cross3(w[0], w[w.len() - 1], #[trigger] w[i]) < 0real { let i = choose|i: int| 0 <= i < w.len() && cross3(w[0], w[w.len() - 1], #[trigger] w[i]) < 0real; let _ = s[i]; }
    if exists|i: int| 0 <= i < s.len() && cross3(w[0], w[w.len() - 1], pxy(#[trigger] s[i])) < 0real { let i = choose|i: int| 0 <= i < s.len() && cross3(w[0], w[w.len() - 1], pxy(#[trigger] s[i])) < 0real; let _ = w[i]; }
}
pub open spec fn psorted<T: PolygonScalar>(d: P2, s: Seq<Point<T, 2>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> mcmp(d, pxy(s[i]), pxy(s[j])) != Ordering::Greater }
pub proof fn prepared<T: PolygonScalar>(d: P2, inp: Seq<Point<T, 2>>, w: Seq<Point<T, 2>>)
    requires exists|s: Seq<Point<T, 2>>| s.to_multiset() == inp.to_multiset() && s.len() == inp.len() && psorted(d, s) && w == #[trigger] dedup_of(s)
    ensures mstrict(d, pxs(w)), same_set(pxs(inp), pxs(w)), flat(pxs(inp)) == flat(pxs(w)), w.len() < 3 ==> flat(pxs(inp))
{
    hide(mcmp); hide(cross3);
    let s = choose|s: Seq<Point<T, 2>>| s.to_multiset() == inp.to_multiset() && s.len() == inp.len() && psorted(d, s) && w == #[trigger] dedup_of(s);
    assert forall|i: int, j: int| 0 <= i < j < pxs(s).len() implies mcmp(d, #[trigger] pxs(s)[i], #[trigger] pxs(s)[j]) != Ordering::Greater by { let _ = (s[i], s[j]); }
    strict(d, s);
    perm(inp, s);
    let (a, b, c) = (pxs(inp), pxs(s), pxs(w));
    assert(same_set(a, c)) by {
        assert forall|i: int| 0 <= i < a.len() implies c.contains(#[trigger] a[i]) by { assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(c.contains(b[k])); }
        assert forall|i: int| 0 <= i < c.len() implies a.contains(#[trigger] c[i]) by { assert(b.contains(c[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == c[i]; assert(a.contains(b[k])); }
    }
    flat_over(a, c);
    if w.len() < 3 { few(c); }
}
pub proof fn perm<T: PolygonScalar>(a: Seq<Point<T, 2>>, b: Seq<Point<T, 2>>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len()
    ensures same_set(pxs(a), pxs(b))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (pa, pb) = (pxs(a), pxs(b));
    assert forall|i: int| 0 <= i < pa.len() implies pb.contains(#[trigger] pa[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().contains(a[i])); assert(b.to_multiset().contains(a[i])); assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(pb[k] == pa[i]); }
    assert forall|i: int| 0 <= i < pb.len() implies pa.contains(#[trigger] pb[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().contains(b[i])); assert(a.to_multiset().contains(b[i])); assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(pa[k] == pb[i]); }
}
pub open spec fn state<T: PolygonScalar>(d: P2, w: Seq<P2>, rest: Seq<Point<T, 2>>, v: Seq<Point<T, 2>>, hr: bool) -> bool {
    rest.len() <= w.len() && w.len() >= 3 && mstrict(d, w) && pxs(rest) == w.take(rest.len() as int) && exists|r: int| #[trigger] built(d, w, rest.len() as int, pxs(v), r, hr)
}
pub proof fn next<T: PolygonScalar>(d: P2, w: Seq<P2>, rest: Seq<Point<T, 2>>, v: Seq<Point<T, 2>>, q: Point<T, 2>, hr: bool)
    ensures
        forall|t: Seq<Point<T, 2>>| #[trigger] state(d, w, t, v, hr) && t.len() > 0 && t.last() == q && t.drop_last() == rest ==> ({
            let o = orient3(w[0], w[w.len() - 1], pxy(q));
            if o == Orientation::ClockWise || o == Orientation::CoLinear && !hr { state(d, w, rest, seq![q] + v, hr) } else { state(d, w, rest, v.push(q), hr) }
        })
{
    hide(built); hide(mstrict);
    assert forall|t: Seq<Point<T, 2>>| #[trigger] state(d, w, t, v, hr) && t.len() > 0 && t.last() == q && t.drop_last() == rest implies ({
            let o = orient3(w[0], w[w.len() - 1], pxy(q));
            if o == Orientation::ClockWise || o == Orientation::CoLinear && !hr { state(d, w, rest, seq![q] + v, hr) } else { state(d, w, rest, v.push(q), hr) }
        }) by { assert(t =~= rest.push(q)); next_of(d, w, rest, v, q, hr); }
}
proof fn next_of<T: PolygonScalar>(d: P2, w: Seq<P2>, rest: Seq<Point<T, 2>>, v: Seq<Point<T, 2>>, q: Point<T, 2>, hr: bool)
    requires state(d, w, rest.push(q), v, hr)
    ensures
        rightp(w[0], w[w.len() - 1], hr, pxy(q)) ==> state(d, w, rest, seq![q] + v, hr),
        !rightp(w[0], w[w.len() - 1], hr, pxy(q)) ==> state(d, w, rest, v.push(q), hr),
{
    hide(built); hide(rightp); hide(mstrict);
    let m = rest.len() as int + 1;
    let r = choose|r: int| #[trigger] built(d, w, m, pxs(v), r, hr);
    let p = pxs(rest.push(q));
    assert(p[m - 1] == pxy(q) && w.take(m)[m - 1] == w[m - 1]);
    assert(pxs(rest) =~= w.take(m - 1)) by { assert forall|i: int| 0 <= i < m - 1 implies pxs(rest)[i] == w.take(m - 1)[i] by { assert(p[i] == w.take(m)[i]); } }
    if rightp(w[0], w[w.len() - 1], hr, pxy(q)) { to_front(d, w, m, pxs(v), r, hr); assert(pxs(seq![q] + v) =~= front(w[m - 1], pxs(v))); }
    else { to_back(d, w, m, pxs(v), r, hr); assert(pxs(v.push(q)) =~= pxs(v).push(w[m - 1])); }
}
pub open spec fn made<T: PolygonScalar>(d: P2, inp: Seq<P2>, q: Polygon<T>) -> bool {
    wf(q) && simple_ring(vs(q.points@)) && same_set(inp, vs(q.points@)) && q.rings@.len() == 1 && q.rings@[0]@.len() == q.points@.len()
    && ring_turn(q, Orientation::CounterClockWise) && monotone(d, ring_vs(q)) && !flat(inp)
}
// what Polygon::new makes of the two chains
pub proof fn finish<T: PolygonScalar>(d: P2, inp: Seq<Point<T, 2>>, w: Seq<P2>, v: Seq<Point<T, 2>>, hr: bool, r: Result<Polygon<T>, Error>)
    requires
        state(d, w, Seq::<Point<T, 2>>::empty(), v, hr), right_known(w, hr), same_set(pxs(inp), w), flat(pxs(inp)) == flat(w),
        match r {
            Ok(q) => simple_ring(vs(v)) && wf(q) && q.points@ == v && q.rings@.len() == 1 && q.rings@[0]@.len() == v.len() && ring_turn(q, Orientation::CounterClockWise)
                && ((forall|k: int| 0 <= k < v.len() ==> (#[trigger] q.rings@[0]@[k]).0 == k) || (forall|k: int| 0 <= k < v.len() ==> (#[trigger] q.rings@[0]@[k]).0 == v.len() - 1 - k)),
            Err(_) => !simple_ring(vs(v)),
        }
    ensures match r { Ok(q) => made(d, pxs(inp), q), Err(_) => flat(pxs(inp)) }
{
    hide(built); hide(mstrict); hide(two_chains); hide(simple_ring); hide(flat); hide(ring_turn); hide(monotone); hide(right_known);
    let u = pxs(v); let k = choose|k: int| #[trigger] built(d, w, 0, u, k, hr);
    let (lo, hi) = (w[0], w[w.len() - 1]); let a = pxs(inp);
    assert(u =~= vs(v));
    placed(d, w, u, k, hr);
    if !flat(w) { chains_simple(d, u, lo, hi, k, hr); chains_monotone(d, u, lo, hi, k, hr); chains_back(d, u, lo, hi, k, hr); }
    if r is Ok {
        let q = r->Ok_0;
        not_flat(u);
        flat_over(w, u);
        if forall|k: int| 0 <= k < v.len() ==> (#[trigger] q.rings@[0]@[k]).0 == k { assert(ring_vs(q) =~= u); } else { assert(ring_vs(q) =~= newp::rv(u)); }
        assert forall|i: int| 0 <= i < a.len() implies u.contains(#[trigger] a[i]) by { assert(w.contains(a[i])); let k = choose|k: int| 0 <= k < w.len() && w[k] == a[i]; assert(u.contains(w[k])); }
        assert forall|i: int| 0 <= i < u.len() implies a.contains(#[trigger] u[i]) by { assert(w.contains(u[i])); let k = choose|k: int| 0 <= k < w.len() && w[k] == u[i]; assert(a.contains(w[k])); }
    }
}
// all points placed
// ---- star polygons
// the ring runs through the points in their order, or all the way back
pub open spec fn in_order<T: PolygonScalar>(q: Polygon<T>) -> bool { let n = q.points@.len(); (forall|k: int| 0 <= k < n ==> (#[trigger] q.rings@[0]@[k]).0 == k) || (forall|k: int| 0 <= k < n ==> (#[trigger] q.rings@[0]@[k]).0 == n - 1 - k) }
pub open spec fn simple_made<T: PolygonScalar>(q: Polygon<T>) -> bool { in_order(q) && wf(q) && simple_ring(vs(q.points@)) && q.rings@.len() == 1 && q.rings@[0]@.len() == q.points@.len() && ring_turn(q, Orientation::CounterClockWise) }
pub open spec fn same_bag<T>(a: Seq<Point<T, 2>>, b: Seq<Point<T, 2>>) -> bool { a.to_multiset() == b.to_multiset() && a.len() == b.len() }
// in counterclockwise order around o, starting to its right
pub open spec fn around(o: P2, v: Seq<P2>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> acmp((1real, 0real), psub(#[trigger] v[i], o), psub(#[trigger] v[j], o)) != Ordering::Greater }
pub proof fn round_laws() ensures
    forall|a: P2, b: P2| #[trigger] acmp((1real, 0real), b, a) == orev(acmp((1real, 0real), a, b)),
    forall|a: P2, b: P2, c: P2| #[trigger] acmp((1real, 0real), a, b) != Ordering::Greater && #[trigger] acmp((1real, 0real), b, c) != Ordering::Greater ==> acmp((1real, 0real), a, c) != Ordering::Greater,
{
    let z = (1real, 0real);
    assert forall|a: P2, b: P2| #[trigger] acmp(z, b, a) == orev(acmp(z, a, b)) by { acmp_total_preorder(z, a, b, b); }
    assert forall|a: P2, b: P2, c: P2| #[trigger] acmp(z, a, b) != Ordering::Greater && #[trigger] acmp(z, b, c) != Ordering::Greater implies acmp(z, a, c) != Ordering::Greater by { acmp_total_preorder(z, a, b, c); }
}
pub open spec fn right_known(w: Seq<P2>, hr: bool) -> bool { hr == exists|i: int| 0 <= i < w.len() && cross3(w[0], w[w.len() - 1], #[trigger] w[i]) < 0real }
pub proof fn placed(d: P2, w: Seq<P2>, v: Seq<P2>, r: int, hr: bool)
    requires mstrict(d, w), built(d, w, 0, v, r, hr), right_known(w, hr)
    ensures same_set(w, v), !flat(w) ==> two_chains(d, v, w[0], w[w.len() - 1], r, hr)
{
    hide(cross3); hide(mcmp);
    let n = w.len() as int; let (lo, hi) = (w[0], w[n - 1]);
    assert(mless(d, lo, hi));
    mcmp_laws(d, lo, hi, lo); mcmp_laws(d, lo, lo, lo); mcmp_laws(d, hi, hi, hi);
    assert forall|i: int| 0 <= i < v.len() implies w.contains(#[trigger] v[i]) by { assert(from(w, 0, v[i])); let k = choose|k: int| 0 <= k < n && #[trigger] w[k] == v[i]; }
    assert forall|k: int| 0 <= k < n implies v.contains(#[trigger] w[k]) by { }
    assert forall|i: int| 0 <= i < n implies mcmp(d, lo, #[trigger] v[i]) != Ordering::Greater && mcmp(d, v[i], hi) != Ordering::Greater by {
        assert(from(w, 0, v[i])); let k = choose|k: int| 0 <= k < n && #[trigger] w[k] == v[i];
        if k > 0 { assert(mless(d, w[0], w[k])); } if k < n - 1 { assert(mless(d, w[k], w[n - 1])); }
    }
    if hr {
        let k = choose|k: int| 0 <= k < n && cross3(lo, hi, #[trigger] w[k]) < 0real;
        assert(v.contains(w[k])); let i = choose|i: int| 0 <= i < v.len() && v[i] == w[k];
        assert(rightp(lo, hi, hr, v[i]));
        assert(r > 0);
    } else {
        assert forall|i: int| 0 <= i < n implies cross3(lo, hi, #[trigger] v[i]) >= 0real by { assert(from(w, 0, v[i])); let k = choose|k: int| 0 <= k < n && #[trigger] w[k] == v[i]; assert(!(cross3(lo, hi, w[k]) < 0real)); }
        if r == n {
            assert forall|k: int| 0 <= k < n implies cross3(lo, hi, #[trigger] w[k]) == 0real by { assert(v.contains(w[k])); let i = choose|i: int| 0 <= i < v.len() && v[i] == w[k]; assert(rightp(lo, hi, hr, v[i]) == (i < r)); assert(cross3(lo, hi, v[i]) >= 0real); }
            on_line(lo, hi, w);
        }
    }
    if !flat(w) {
        assert forall|i: int| 0 <= i < n implies (#[trigger] cross3(lo, hi, v[i]) < 0real) == (hr && i < r) by { assert(rightp(lo, hi, hr, v[i]) == (i < r)); }
        assert forall|i: int| 0 <= i < r implies (if hr { cross3(lo, hi, #[trigger] v[i]) < 0real } else { cross3(lo, hi, v[i]) == 0real }) by { assert(rightp(lo, hi, hr, v[i])); }
        assert forall|i: int| r <= i < n implies (if hr { cross3(lo, hi, #[trigger] v[i]) >= 0real } else { cross3(lo, hi, v[i]) > 0real }) by { assert(!rightp(lo, hi, hr, v[i])); }
    }
}
} }
verus! {
//@ fn src/algorithms/polygonization/monotone.rs | - | new_monotone_polygon
//@ ret r
//@ spec
    ensures match r {
        // a simple counterclockwise polygon with the given points as its vertices, monotone along the direction
        Ok(q) => mong::made(vxy(*direction), pxs(points@), q),
        // only when all points are on one line
        Err(_) => flat(pxs(points@)),
    }
//@ closure 0
    -> (o: Ordering) ensures o == mcmp(vxy(*direction), pxy(*prev), pxy(*curr))
//@ closure 1
    -> (o: Ordering) ensures o == plex(pxy(*prev), pxy(*curr))
//@ closure 2
    -> (b: bool) ensures b == (cross3(pxy(min_point), pxy(max_point), pxy(*pt)) < 0real)
//@ top
    hide(mcmp); hide(plex); hide(dot2); hide(vxy); hide(monotone); hide(cross3); hide(simple_ring); hide(ring_turn); hide(flat); hide(same_set); hide(mong::state); hide(mong::made); hide(mong::mstrict); hide(wf);
    let ghost d = vxy(*direction); let ghost inp = points@;
    proof { ringp::point_order::<T>(); mono::mcmp_all(d); mong::pclone::<T>(); }
//@ after_stmt points.dedup(
    let ghost w = pxs(points@); let ghost n = w.len() as int;
    proof { mong::prepared(d, inp, points@); if points@.len() >= 3 { mong::begin(d, points@, true); mong::begin(d, points@, false); } }
//@ after_stmt let has_right
    proof { mong::known(w, points@, has_right); assert forall|k: int| 0 <= k < points@.len() implies (cross3(w[0], w[n - 1], pxy(#[trigger] points@[k])) < 0real ==> has_right) by { let _ = points@.as_ref()[k]; } }
//@ loop 0
    invariant
        n == w.len(), pxy(min_point) == w[0], pxy(max_point) == w[n - 1], mong::state(d, w, points@, polygon_points@, has_right)
    ensures points@.len() == 0
    decreases points@.len()
//@ loop_top 0
    proof { mong::next(d, w, points@, polygon_points@, curr, has_right); assert(w.len() >= 3) by { reveal(mong::state); } }
//@ tail res
    proof { assert(points@ =~= Seq::empty()); mong::finish(d, inp, w, polygon_points@, has_right, res); }
//@ end
} // verus!
