// Convex hull by Graham scan: the result is the strictly convex hull of the input.
verus! {
pub open spec fn point_cloned<T: Clone, const N: usize>(a: Point<T, N>, b: Point<T, N>) -> bool { forall|i: int| 0 <= i < N ==> cloned(#[trigger] a.array@[i], b.array@[i]) }
// derived Clone clones every coordinate
impl<T: Clone, const N: usize> Clone for Point<T, N> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures point_cloned(*self, r) { unimplemented!() }
}
// y first, then x
pub open spec fn yxcmp(a: P2, b: P2) -> Ordering { if a.1 != b.1 { rcmp(a.1, b.1) } else { rcmp(a.0, b.0) } }
// angle around o first, then y, then x
pub open spec fn gcmp(o: P2, a: P2, b: P2) -> Ordering {
    if acmp((1real, 0real), psub(a, o), psub(b, o)) != Ordering::Equal { acmp((1real, 0real), psub(a, o), psub(b, o)) } else { yxcmp(a, b) }
}
pub open spec fn pxs<T: PolygonScalar>(s: Seq<Point<T, 2>>) -> Seq<P2> { Seq::new(s.len(), |i: int| pxy(s[i])) }
// every point of s is on or to the left of every edge of v
pub open spec fn encloses(v: Seq<P2>, s: Seq<P2>) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> !beyond(v, s[k]) }
// the vertices are points of the set
pub open spec fn drawn(v: Seq<P2>, s: Seq<P2>) -> bool { forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i]) }
// v is the convex hull of s: strictly convex, counterclockwise, made of points of s, with no point of s outside
pub open spec fn is_hull(v: Seq<P2>, s: Seq<P2>) -> bool { cring(v) && drawn(v, s) && encloses(v, s) }
pub open spec fn flat(s: Seq<P2>) -> bool { forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() ==> cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real }
} // verus!
pub mod gra { use super::*; verus! {
pub open spec fn seg_at(o: P2, b: P2, a: P2, m: real) -> bool { 0real <= m <= 1real && a.0 - o.0 == m * (b.0 - o.0) && a.1 - o.1 == m * (b.1 - o.1) }
pub open spec fn on_seg(o: P2, b: P2, a: P2) -> bool { exists|m: real| seg_at(o, b, a, m) }
// b comes after a going around o; if level with it, farther
pub open spec fn after(o: P2, a: P2, b: P2) -> bool { cross3(o, a, b) >= 0real && (cross3(o, a, b) == 0real ==> on_seg(o, b, a)) }
pub open spec fn fan_of(s: Seq<P2>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] after(s[0], s[i], s[j]) }

pub proof fn tc<T: PolygonScalar>() ensures forall|a: &T, b: &T| #[trigger] a.tcmp(b) == rcmp(a.v(), b.v())
{ assert forall|a: &T, b: &T| #[trigger] a.tcmp(b) == rcmp(a.v(), b.v()) by { T::scalar_laws(*a, *b); } }
pub proof fn pclone<T: PolygonScalar>() ensures forall|a: Point<T, 2>, b: Point<T, 2>| #[trigger] point_cloned(a, b) ==> pxy(a) == pxy(b)
{
    assert forall|a: Point<T, 2>, b: Point<T, 2>| #[trigger] point_cloned(a, b) implies pxy(a) == pxy(b) by {
        assert(cloned(a.array@[0], b.array@[0]) && cloned(a.array@[1], b.array@[1]));
        T::scalar_laws(a.array[0], b.array[0]); T::scalar_laws(a.array[1], b.array[1]);
    }
}
pub proof fn gcmp_laws(o: P2)
    ensures
        forall|a: P2, b: P2| #[trigger] gcmp(o, b, a) == orev(gcmp(o, a, b)),
        forall|a: P2, b: P2, c: P2| #[trigger] gcmp(o, a, b) != Ordering::Greater && #[trigger] gcmp(o, b, c) != Ordering::Greater ==> gcmp(o, a, c) != Ordering::Greater,
{
    let z = (1real, 0real);
    assert forall|a: P2, b: P2| #[trigger] gcmp(o, b, a) == orev(gcmp(o, a, b)) by { acmp_total_preorder(z, psub(a, o), psub(b, o), psub(b, o)); }
    assert forall|a: P2, b: P2, c: P2| #[trigger] gcmp(o, a, b) != Ordering::Greater && #[trigger] gcmp(o, b, c) != Ordering::Greater implies gcmp(o, a, c) != Ordering::Greater by {
        acmp_total_preorder(z, psub(a, o), psub(b, o), psub(c, o)); acmp_total_preorder(z, psub(c, o), psub(b, o), psub(a, o));
        acmp_total_preorder(z, psub(a, o), psub(c, o), psub(b, o));
    }
}
pub proof fn pair(o: P2, a: P2, b: P2)
    requires yxcmp(o, a) != Ordering::Greater, yxcmp(o, b) != Ordering::Greater, gcmp(o, a, b) != Ordering::Greater
    ensures after(o, a, b)
{
    let (da, db) = (psub(a, o), psub(b, o)); let z = (1real, 0real);
    assert(cross2(z, da) == da.1 && cross2(z, db) == db.1 && dot2(z, da) == da.0 && dot2(z, db) == db.0) by(nonlinear_arith) requires z == (1real, 0real);
    if da.1 > 0real && db.1 > 0real {
        if cross3(o, a, b) == 0real {
            let m = da.1 / db.1;
            assert(m * db.1 == da.1 && 0real <= m <= 1real) by(nonlinear_arith) requires db.1 > 0real, m == da.1 / db.1, 0real < da.1 <= db.1;
            assert(m * db.0 == da.0) by(nonlinear_arith) requires db.1 > 0real, m * db.1 == da.1, da.0 * db.1 - da.1 * db.0 == 0real;
            assert(seg_at(o, b, a, m));
        }
    } else if db.1 > 0real {
        rmul_sign(da.0, db.1);
        if da.0 == 0real { let m = 0real; rmul_sign(m, db.0); rmul_sign(m, db.1); assert(seg_at(o, b, a, m)); }
        rmul_sign(da.1, db.0);
    } else {
        rmul_sign(da.0, db.1); rmul_sign(da.1, db.0);
        if db.0 == 0real { let m = 0real; rmul_sign(m, db.0); rmul_sign(m, db.1); assert(seg_at(o, b, a, m)); }
        else {
            let m = da.0 / db.0;
            assert(m * db.0 == da.0 && 0real <= m <= 1real) by(nonlinear_arith) requires db.0 > 0real, m == da.0 / db.0, 0real <= da.0 <= db.0;
            rmul_sign(m, db.1);
            assert(seg_at(o, b, a, m));
        }
    }
}
pub proof fn fan(o: P2, s: Seq<P2>)
    requires
        s.contains(o), forall|i: int| 0 <= i < s.len() ==> yxcmp(o, #[trigger] s[i]) != Ordering::Greater,
        forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> gcmp(o, s[i], s[j]) != Ordering::Greater,
    ensures fan_of(s), s[0] == o
{
    gcmp_laws(o);
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies #[trigger] after(o, s[i], s[j]) by {
        if i == j { let p = s[i]; assert(gcmp(o, p, p) == orev(gcmp(o, p, p))); }
        pair(o, s[i], s[j]);
    }
    let k = choose|k: int| 0 <= k < s.len() && s[k] == o;
    assert(after(o, s[0], s[k]));
    cross3_sym(o, s[0], o); cross3_expand(o, s[0], o); cross2_anti(o, s[0]); cross2_anti(o, o);
    let m = choose|m: real| seg_at(o, o, s[0], m);
    rmul_sign(m, o.0 - o.0); rmul_sign(m, o.1 - o.1);
}
// the cross product scales along a ray
pub proof fn scale(o: P2, b: P2, a: P2, q: P2)
    requires on_seg(o, b, a)
    ensures
        cross3(o, b, q) == 0real ==> cross3(o, a, q) == 0real, cross3(o, b, q) > 0real ==> 0real <= cross3(o, a, q) <= cross3(o, b, q), cross3(o, b, q) < 0real ==> cross3(o, b, q) <= cross3(o, a, q) <= 0real,
        cross3(o, a, q) > 0real ==> cross3(o, b, q) > 0real, cross3(o, q, a) == -cross3(o, a, q), cross3(o, q, b) == -cross3(o, b, q), cross3(o, b, a) == 0real, cross3(o, a, b) == 0real,
{
    let m = choose|m: real| seg_at(o, b, a, m);
    let (da, db, dq) = (psub(a, o), psub(b, o), psub(q, o));
    rm3(m, db.0, dq.1); rm3(m, db.1, dq.0); rd(m, db.0 * dq.1, db.1 * dq.0);
    assert(cross2(da, dq) == m * cross2(db, dq));
    let c = cross2(db, dq);
    assert((c == 0real ==> m * c == 0real) && (c > 0real ==> 0real <= m * c <= c) && (c < 0real ==> c <= m * c <= 0real)) by(nonlinear_arith) requires 0real <= m <= 1real;
    cross2_anti(da, dq); cross2_anti(db, dq); cross2_anti(da, db);
    rm3(m, db.0, db.1); rm3(m, db.1, db.0); rmc(db.0, db.1);
}
proof fn rm3(m: real, a: real, b: real) ensures (m * a) * b == m * (a * b) { assert((m * a) * b == m * (a * b)) by(nonlinear_arith); }
// area of a quadrilateral, cut along either diagonal
pub proof fn quad(a: P2, b: P2, c: P2, d: P2) ensures cross3(a, b, c) + cross3(a, c, d) == cross3(a, b, d) + cross3(b, c, d)
{ cross3_expand(a, b, c); cross3_expand(a, c, d); cross3_expand(a, b, d); cross3_expand(b, c, d); cross2_anti(a, b); cross2_anti(a, c); cross2_anti(a, d); cross2_anti(b, c); cross2_anti(b, d); cross2_anti(c, d); }
// three directions seen from o (Plucker)
pub proof fn cone(o: P2, a: P2, b: P2, c: P2, d: P2)
    ensures cross3(o, a, c) * cross3(o, b, d) == cross3(o, a, b) * cross3(o, c, d) + cross3(o, b, c) * cross3(o, a, d)
{ plucker(psub(a, o), psub(b, o), psub(c, o), psub(d, o)); }
pub proof fn pos(x: real, y: real) requires x > 0real, x * y >= 0real ensures y >= 0real, x * y > 0real ==> y > 0real { rmul_sign(x, y); }

pub open spec fn st(s: Seq<P2>, ix: Seq<int>, i: int) -> P2 { s[ix[i]] }
pub open spec fn covered(s: Seq<P2>, top: P2, r: int, q: P2) -> bool { cross3(s[0], q, top) >= 0real || (r < s.len() && cross3(top, s[r], q) >= 0real) }
// the first r0 points are on one ray from s[0]
pub open spec fn on_ray(s: Seq<P2>, r0: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < r0 ==> cross3(s[0], s[i], s[r0 - 1]) == 0real }
pub open spec fn incr(ix: Seq<int>, r: int) -> bool { forall|i: int, j: int| #![trigger ix[i], ix[j]] 0 <= i < j < ix.len() ==> 0 <= ix[i] && ix[i] < ix[j] && ix[j] < r }
pub open spec fn stacked(s: Seq<P2>, ix: Seq<int>) -> bool { forall|i: int, j: int, k: int| 0 <= i < j < k < ix.len() ==> cross3(#[trigger] st(s, ix, i), #[trigger] st(s, ix, j), #[trigger] st(s, ix, k)) > 0real }
pub open spec fn edged(s: Seq<P2>, ix: Seq<int>, r: int) -> bool { forall|k: int, i: int| #![trigger s[k], st(s, ix, i)] 0 <= k < r && 0 <= i < ix.len() - 1 ==> cross3(st(s, ix, i), st(s, ix, i + 1), s[k]) >= 0real }
pub proof fn tri(s: Seq<P2>, ix: Seq<int>, i: int, j: int, k: int) requires stacked(s, ix), 0 <= i < j < k < ix.len() ensures cross3(st(s, ix, i), st(s, ix, j), st(s, ix, k)) > 0real { }
pub proof fn edg(s: Seq<P2>, ix: Seq<int>, r: int, k: int, i: int) requires edged(s, ix, r), 0 <= k < r, 0 <= i < ix.len() - 1 ensures cross3(st(s, ix, i), st(s, ix, i + 1), s[k]) >= 0real { let _ = st(s, ix, i); }
pub proof fn inc(ix: Seq<int>, r: int, i: int, j: int) requires incr(ix, r), 0 <= i < j < ix.len() ensures 0 <= ix[i] < ix[j] < r { assert(incr(ix, r)); let a = ix[i]; let b = ix[j]; assert(0 <= a); assert(a < b); assert(b < r); }
pub proof fn bef(s: Seq<P2>, i: int, j: int) requires fan_of(s), 0 <= i <= j < s.len() ensures after(s[0], s[i], s[j]) { }
// state of the scan: s is sorted around s[0], ix are the kept indices, r the next one, r0 the first off the first ray
pub open spec fn ginv(s: Seq<P2>, ix: Seq<int>, r: int, r0: int) -> bool {
    &&& fan_of(s) && 2 <= r0 <= r <= s.len() && ix.len() >= 2 && ix[0] == 0 && ix[1] == r0 - 1
    &&& r0 < s.len() ==> cross3(s[0], s[r0 - 1], s[r0]) > 0real
    &&& on_ray(s, r0)
    &&& incr(ix, r)
    &&& stacked(s, ix)
    &&& edged(s, ix, r)
    &&& forall|k: int| #![trigger s[k]] 0 <= k < r ==> covered(s, st(s, ix, ix.len() - 1), r, s[k])
    &&& r == s.len() ==> ix.len() >= 3 || r0 == r
}
// the points before r0 are on one ray, those from r0 on strictly past it
pub proof fn first_ray(s: Seq<P2>, r0: int, k: int)
    requires fan_of(s), 2 <= r0 <= s.len(), 0 <= k < s.len(), on_ray(s, r0)
    ensures k < r0 ==> cross3(s[0], s[r0 - 1], s[k]) == 0real && on_seg(s[0], s[r0 - 1], s[k]), r0 <= k && cross3(s[0], s[r0 - 1], s[r0]) > 0real ==> cross3(s[0], s[r0 - 1], s[k]) > 0real
{
    let o = s[0]; let t = s[r0 - 1];
    if k < r0 { assert(after(o, s[k], t)); scale(o, t, s[k], t); }
    else if cross3(o, t, s[r0]) > 0real {
        assert(after(o, t, s[k])); assert(after(o, s[r0], s[k]));
        if cross3(o, t, s[k]) == 0real { scale(o, s[k], t, s[r0]); }
    }
}
// the ray through t is left behind strictly
proof fn acc_far(o: P2, u: P2, t: P2, p: P2)
    requires after(o, t, p), u == o || cross3(o, u, t) > 0real, cross3(u, t, p) > 0real
    ensures cross3(o, t, p) > 0real
{
    if u != o && cross3(o, t, p) == 0real { quad(o, u, t, p); scale(o, p, t, u); cross3_sym(o, u, t); cross3_sym(o, u, p); }
}
// x is before u, and u, t, p turn left: so do x, t, p
proof fn acc_before(o: P2, x: P2, u: P2, t: P2, p: P2)
    requires cross3(o, t, p) > 0real, cross3(o, u, t) > 0real, cross3(u, t, p) >= 0real, cross3(u, t, x) >= 0real, cross3(o, x, t) >= 0real
    ensures cross3(t, p, x) >= 0real, cross3(u, t, p) > 0real && cross3(u, t, x) > 0real ==> cross3(x, t, p) > 0real, cross3(u, t, p) > 0real && cross3(o, x, t) > 0real ==> cross3(x, t, p) > 0real
{
    cross3_sym(o, t, p); cross3_sym(o, u, t); cross3_sym(u, t, p); cross3_sym(u, t, x); cross3_sym(o, x, t); cross3_sym(t, p, x);
    cone(t, p, o, x, u);
    rmul_sign(cross3(t, p, o), cross3(t, x, u)); rmul_sign(cross3(t, o, x), cross3(t, p, u));
    rmc(cross3(t, o, u), cross3(t, p, x));
    pos(cross3(t, o, u), cross3(t, p, x));
}
proof fn acc_chain(o: P2, a: P2, b: P2, t: P2, p: P2)
    requires cross3(b, t, p) > 0real, cross3(a, b, t) > 0real, cross3(o, b, p) > 0real, cross3(o, a, b) > 0real, cross3(o, b, t) > 0real
    ensures cross3(a, b, p) > 0real
{
    cross3_sym(b, t, p); cross3_sym(a, b, t); cross3_sym(o, b, p); cross3_sym(o, a, b); cross3_sym(o, b, t); cross3_sym(a, b, p);
    cone(b, t, p, o, a);
    rmul_sign(cross3(b, t, p), cross3(b, o, a)); rmul_sign(cross3(b, p, o), cross3(b, t, a));
    pos(cross3(b, t, o), cross3(b, p, a));
}
proof fn acc_fan(o: P2, b: P2, t: P2, p: P2)
    requires after(o, b, p), cross3(o, b, t) > 0real, cross3(o, t, p) > 0real
    ensures cross3(o, b, p) > 0real
{
    if cross3(o, b, p) == 0real { scale(o, p, b, t); cross3_sym(o, b, t); cross3_sym(o, t, p); }
}
// every new triple turns left
spec fn news(s: Seq<P2>, ix: Seq<int>, p: P2) -> bool { forall|i: int, j: int| 0 <= i < j < ix.len() ==> cross3(#[trigger] st(s, ix, i), #[trigger] st(s, ix, j), p) > 0real }
proof fn new_at(s: Seq<P2>, ix: Seq<int>, p: P2, i: int, j: int) requires news(s, ix, p), 0 <= i < j < ix.len() ensures cross3(st(s, ix, i), st(s, ix, j), p) > 0real { }
proof fn acc_top(s: Seq<P2>, ix: Seq<int>, r: int, r0: int, i: int)
    requires ginv(s, ix, r, r0), r < s.len(), cross3(st(s, ix, ix.len() - 2), st(s, ix, ix.len() - 1), s[r]) > 0real, 0 <= i < ix.len() - 1
    ensures cross3(st(s, ix, i), st(s, ix, ix.len() - 1), s[r]) > 0real
{
    hide(cross3); hide(on_seg); hide(fan_of); hide(stacked); hide(edged); hide(incr); hide(on_ray);
    let w = ix.len() - 1; let o = s[0]; let t = st(s, ix, w); let u = st(s, ix, w - 1); let p = s[r];
    assert(st(s, ix, 0) == o);
    inc(ix, r, w - 1, w); bef(s, ix[w], r);
    if w > 1 { tri(s, ix, 0, w - 1, w); }
    acc_far(o, u, t, p);
    if 0 < i < w - 1 {
        let x = st(s, ix, i);
        tri(s, ix, 0, i, w); tri(s, ix, i, w - 1, w);
        cross3_sym(x, u, t);
        acc_before(o, x, u, t, p);
    }
}
proof fn acc_pair(s: Seq<P2>, ix: Seq<int>, r: int, r0: int, i: int, j: int)
    requires ginv(s, ix, r, r0), r < s.len(), cross3(st(s, ix, ix.len() - 2), st(s, ix, ix.len() - 1), s[r]) > 0real, 0 <= i < j < ix.len()
    ensures cross3(st(s, ix, i), st(s, ix, j), s[r]) > 0real
{
    hide(cross3); hide(on_seg); hide(fan_of); hide(stacked); hide(edged); hide(incr); hide(on_ray);
    let w = ix.len() - 1; let o = s[0]; let t = st(s, ix, w); let p = s[r];
    assert(st(s, ix, 0) == o);
    if j == w { acc_top(s, ix, r, r0, i); }
    else {
        let a = st(s, ix, i); let b = st(s, ix, j);
        tri(s, ix, 0, j, w); acc_top(s, ix, r, r0, 0); acc_top(s, ix, r, r0, j);
        inc(ix, r, j, w); bef(s, ix[j], r);
        acc_fan(o, b, t, p);
        if i > 0 { tri(s, ix, 0, i, j); tri(s, ix, i, j, w); acc_chain(o, a, b, t, p); }
    }
}
// every earlier point is on or to the left of the new edge
proof fn acc_edge(s: Seq<P2>, ix: Seq<int>, r: int, r0: int, k: int)
    requires ginv(s, ix, r, r0), r < s.len(), cross3(st(s, ix, ix.len() - 2), st(s, ix, ix.len() - 1), s[r]) > 0real, 0 <= k <= r
    ensures cross3(st(s, ix, ix.len() - 1), s[r], s[k]) >= 0real
{
    hide(cross3); hide(on_seg); hide(fan_of); hide(stacked); hide(edged); hide(incr); hide(on_ray);
    let w = ix.len() - 1; let o = s[0]; let t = st(s, ix, w); let u = st(s, ix, w - 1); let p = s[r]; let q = s[k];
    assert(st(s, ix, 0) == o);
    cross3_sym(t, p, q);
    acc_top(s, ix, r, r0, 0);
    if k < r {
        assert(covered(s, t, r, q));
        if cross3(t, p, q) < 0real {
            assert(cross3(o, q, t) >= 0real);
            if w == 1 {
                assert(t == s[r0 - 1]);
                first_ray(s, r0, k);
                cross3_sym(o, q, t);
                scale(o, t, q, p); quad(o, q, t, p);
                cross3_sym(q, t, p);
            } else {
                tri(s, ix, 0, w - 1, w);
                edg(s, ix, r, k, w - 1);
                acc_before(o, q, u, t, p);
            }
        }
    }
}
pub proof fn g_accept(s: Seq<P2>, ix: Seq<int>, r: int, r0: int)
    requires ginv(s, ix, r, r0), r < s.len(), cross3(st(s, ix, ix.len() - 2), st(s, ix, ix.len() - 1), s[r]) > 0real
    ensures ginv(s, ix.push(r), r + 1, r0)
{
    hide(cross3); hide(on_seg); hide(after); hide(on_ray); hide(fan_of); hide(stacked); hide(edged); hide(incr);
    let jx = ix.push(r); let n = ix.len() as int; let p = s[r];
    assert(forall|i: int| 0 <= i < n ==> #[trigger] st(s, jx, i) == st(s, ix, i)); assert(st(s, jx, n) == p);
    assert(fan_of(s) && incr(ix, r) && stacked(s, ix) && edged(s, ix, r) && on_ray(s, r0));
    inc(ix, r, 0, 1);
    assert(incr(jx, r + 1)) by {
        reveal(incr);
        assert forall|i: int, j: int| 0 <= i < j < jx.len() implies 0 <= #[trigger] jx[i] && jx[i] < #[trigger] jx[j] && jx[j] < r + 1 by { if j == n { if i > 0 { inc(ix, r, 0, i); } } else { inc(ix, r, i, j); } }
    }
    assert(stacked(s, jx)) by {
        reveal(stacked);
        assert forall|i: int, j: int, k: int| 0 <= i < j < k < jx.len() implies cross3(#[trigger] st(s, jx, i), #[trigger] st(s, jx, j), #[trigger] st(s, jx, k)) > 0real by { if k == n { acc_pair(s, ix, r, r0, i, j); } else { tri(s, ix, i, j, k); } }
    }
    assert(edged(s, jx, r + 1)) by {
        reveal(edged);
        assert forall|k: int, i: int| #![trigger s[k], st(s, jx, i)] 0 <= k < r + 1 && 0 <= i < jx.len() - 1 implies cross3(st(s, jx, i), st(s, jx, i + 1), s[k]) >= 0real by {
            assert(st(s, jx, i + 1) == if i + 1 == n { p } else { st(s, ix, i + 1) });
            if i == n - 1 { acc_edge(s, ix, r, r0, k); }
            else if k < r { edg(s, ix, r, k, i); }
            else { acc_pair(s, ix, r, r0, i, i + 1); }
        }
    }
    assert forall|k: int| #![trigger s[k]] 0 <= k < r + 1 implies covered(s, st(s, jx, jx.len() - 1), r + 1, s[k]) by { reveal(after); bef(s, k, r); }
}
proof fn pop_side(o: P2, u: P2, t: P2, p: P2, q: P2)
    requires cross3(o, u, t) > 0real, cross3(u, t, p) <= 0real, after(o, u, p), after(o, t, p), cross3(u, t, q) >= 0real, cross3(o, u, q) > 0real
    ensures cross3(u, p, q) >= 0real
{
    hide(cross3); hide(on_seg);
    cross3_sym(o, u, t); cross3_sym(u, t, p); cross3_sym(u, t, q); cross3_sym(o, u, q); cross3_sym(o, u, p); cross3_sym(u, p, q);
    if cross3(o, u, p) == 0real { scale(o, p, u, t); cross3_sym(o, p, t); }
    cone(u, p, t, q, o);
    rmul_sign(cross3(u, p, t), cross3(u, q, o)); rmul_sign(cross3(u, t, q), cross3(u, p, o));
    rmc(cross3(u, p, q), cross3(u, t, o));
    pos(cross3(u, t, o), cross3(u, p, q));
}
pub proof fn g_pop(s: Seq<P2>, ix: Seq<int>, r: int, r0: int)
    requires ginv(s, ix, r, r0), r < s.len(), cross3(st(s, ix, ix.len() - 2), st(s, ix, ix.len() - 1), s[r]) <= 0real
    ensures ix.len() >= 3, ginv(s, ix.drop_last(), r, r0)
{
    hide(cross3); hide(on_seg); hide(after); hide(on_ray); hide(fan_of); hide(stacked); hide(edged); hide(incr);
    let jx = ix.drop_last(); let w = ix.len() - 1; let o = s[0]; let t = st(s, ix, w); let u = st(s, ix, w - 1); let p = s[r];
    assert(st(s, ix, 0) == o);
    if w == 1 { first_ray(s, r0, r); }
    assert(forall|i: int| 0 <= i < w ==> #[trigger] st(s, jx, i) == st(s, ix, i));
    tri(s, ix, 0, w - 1, w);
    inc(ix, r, w - 1, w); bef(s, ix[w], r); bef(s, ix[w - 1], r);
    assert(incr(jx, r)) by { reveal(incr); assert forall|i: int, j: int| 0 <= i < j < jx.len() implies 0 <= #[trigger] jx[i] && jx[i] < #[trigger] jx[j] && jx[j] < r by { inc(ix, r, i, j); } }
    assert(stacked(s, jx)) by { reveal(stacked); assert forall|i: int, j: int, k: int| 0 <= i < j < k < jx.len() implies cross3(#[trigger] st(s, jx, i), #[trigger] st(s, jx, j), #[trigger] st(s, jx, k)) > 0real by { tri(s, ix, i, j, k); } }
    assert(edged(s, jx, r)) by { reveal(edged);
        assert forall|k: int, i: int| #![trigger s[k], st(s, jx, i)] 0 <= k < r && 0 <= i < jx.len() - 1 implies cross3(st(s, jx, i), st(s, jx, i + 1), s[k]) >= 0real by {
            assert(st(s, jx, i + 1) == st(s, ix, i + 1)); edg(s, ix, r, k, i);
        }
    }
    assert forall|k: int| #![trigger s[k]] 0 <= k < r implies covered(s, st(s, jx, jx.len() - 1), r, s[k]) by {
        let q = s[k];
        edg(s, ix, r, k, w - 1);
        cross3_sym(o, u, q);
        if cross3(o, q, u) < 0real { pop_side(o, u, t, p, q); }
    }
}
// the points of the stack
pub open spec fn stk(s: Seq<P2>, ix: Seq<int>) -> Seq<P2> { Seq::new(ix.len(), |i: int| st(s, ix, i)) }
pub proof fn g_done(s: Seq<P2>, ix: Seq<int>, r0: int)
    requires ginv(s, ix, s.len() as int, r0)
    ensures ix.len() >= 3 ==> is_hull(stk(s, ix), s), ix.len() < 3 ==> flat(s)
{
    hide(cross3); hide(on_seg); hide(after); hide(on_ray); hide(fan_of); hide(stacked); hide(edged); hide(incr);
    let v = stk(s, ix); let n = ix.len() as int; let o = s[0];
    if n >= 3 {
        assert(forall|i: int| 0 <= i < n ==> #[trigger] v[i] == st(s, ix, i));
        assert(cring(v)) by { assert forall|i: int, j: int, k: int| 0 <= i < j < k < v.len() implies cross3(#[trigger] v[i], #[trigger] v[j], #[trigger] v[k]) > 0real by { tri(s, ix, i, j, k); } }
        assert forall|i: int| 0 <= i < v.len() implies s.contains(#[trigger] v[i]) by { if i > 0 { inc(ix, s.len() as int, 0, i); } assert(s[ix[i]] == v[i]); }
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies !beyond(v, s[k]) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] eside(v, i, s[k]) >= 0real by {
                if i < n - 1 { edg(s, ix, s.len() as int, k, i); assert(wrapi(i + 1, n) == i + 1); assert(v[i + 1] == st(s, ix, i + 1)); }
                else { assert(covered(s, st(s, ix, n - 1), s.len() as int, s[k])); assert(wrapi(n, n) == 0); assert(v[0] == o); cross3_sym(o, s[k], v[n - 1]); }
            }
        }
    } else {
        assert(r0 == s.len());
        let t = s[r0 - 1];
        assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() implies cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real by {
            first_ray(s, r0, i); first_ray(s, r0, j); first_ray(s, r0, k);
            level(o, t, s[i], s[j], s[k]);
        }
    }
}
// three points of one ray
pub proof fn level(o: P2, t: P2, a: P2, b: P2, c: P2)
    requires on_seg(o, t, a), on_seg(o, t, b), on_seg(o, t, c)
    ensures cross3(a, b, c) == 0real
{
    let da = psub(a, o); let db = psub(b, o); let dc = psub(c, o);
    scale(o, t, a, b); scale(o, t, b, c); scale(o, t, c, a); scale(o, t, b, t); scale(o, t, c, t); scale(o, t, a, t);
    quad(o, a, b, c); cross3_sym(o, a, c); cross3_sym(a, b, c); cross3_sym(o, t, a); cross3_sym(o, t, b); cross3_sym(o, t, c);
}
pub proof fn g_start(s: Seq<P2>, r: int)
    requires fan_of(s), 2 <= r <= s.len(), on_ray(s, r), r < s.len() ==> cross3(s[0], s[r - 1], s[r]) != 0real
    ensures ginv(s, seq![0int, r - 1], r, r)
{
    let ix = seq![0int, r - 1]; let o = s[0]; let t = s[r - 1];
    assert(st(s, ix, 0) == o && st(s, ix, 1) == t);
    if r < s.len() { assert(after(s[0], s[r - 1], s[r])); }
    assert forall|k: int, i: int| #![trigger s[k], st(s, ix, i)] 0 <= k < r && 0 <= i < ix.len() - 1 implies cross3(st(s, ix, i), st(s, ix, i + 1), s[k]) >= 0real by { cross3_sym(o, s[k], t); }
}
pub proof fn g_prefix(s: Seq<P2>, r: int)
    requires fan_of(s), 2 <= r < s.len(), on_ray(s, r), cross3(s[0], s[r - 1], s[r]) == 0real
    ensures on_ray(s, r + 1)
{
    assert forall|i: int| #![trigger s[i]] 0 <= i < r + 1 implies cross3(s[0], s[i], s[r + 1 - 1]) == 0real by {
        if i < r { assert(after(s[0], s[i], s[r - 1])); scale(s[0], s[r - 1], s[i], s[r]); } else { cross3_sym(s[0], s[r], s[r]); }
    }
}
pub proof fn g_base(s: Seq<P2>) requires fan_of(s), s.len() >= 2 ensures on_ray(s, 2)
{ cross3_sym(s[0], s[1], s[1]); cross3_sym(s[0], s[0], s[1]); }
} }
verus! {
//@ fn src/algorithms/convex_hull/graham_scan.rs | - | smallest_point
//@ ret r
//@ spec
    ensures match r {
        Ok(p) => pxs(pts@).contains(pxy(p)) && forall|j: int| 0 <= j < pts@.len() ==> yxcmp(pxy(p), pxy(#[trigger] pts@[j])) != Ordering::Greater,
        Err(e) => e == Error::InsufficientVertices && pts@.len() == 0,
    }
//@ closure 0
    -> (o: Ordering) ensures o == yxcmp(pxy(**a), pxy(**b))
//@ top
    proof { gra::tc::<T>(); gra::pclone::<T>(); }
//@ tail res
    proof {
        if res is Ok { let p = res->Ok_0;
            let i = choose|i: int| 0 <= i < pts@.len() && #[trigger] point_cloned(pts@[i], p) && forall|j: int| 0 <= j < pts@.len() ==> yxcmp(pxy(pts@[i]), pxy(#[trigger] pts@[j])) != Ordering::Greater;
            assert(0 <= i < pts@.len() && point_cloned(pts@[i], p));
            assert(pxs(pts@)[i] == pxy(p));
        } else { assert(pts@.len() == 0); assert(res == Err::<Point<T, 2>, Error>(Error::InsufficientVertices)); }
    }
//@ end
} // verus!
pub mod gral { use super::*; verus! {
use crate::gra::*;
// what the scan has found when everything is read
pub open spec fn found(ss: Seq<P2>, ix: Seq<int>) -> bool { (ix.len() >= 3 ==> is_hull(stk(ss, ix), ss)) && (ix.len() < 3 ==> flat(ss)) && incr(ix, ss.len() as int) }
pub proof fn gcmp_all() ensures
        forall|o: P2, a: P2, b: P2| #[trigger] gcmp(o, b, a) == orev(gcmp(o, a, b)),
        forall|o: P2, a: P2, b: P2, c: P2| #[trigger] gcmp(o, a, b) != Ordering::Greater && #[trigger] gcmp(o, b, c) != Ordering::Greater ==> gcmp(o, a, c) != Ordering::Greater,
{
    assert forall|o: P2, a: P2, b: P2| #[trigger] gcmp(o, b, a) == orev(gcmp(o, a, b)) by { gcmp_laws(o); }
    assert forall|o: P2, a: P2, b: P2, c: P2| #[trigger] gcmp(o, a, b) != Ordering::Greater && #[trigger] gcmp(o, b, c) != Ordering::Greater implies gcmp(o, a, c) != Ordering::Greater by { gcmp_laws(o); }
}
pub open spec fn gsorted<T: PolygonScalar>(o: P2, s: Seq<Point<T, 2>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> gcmp(o, pxy(s[i]), pxy(s[j])) != Ordering::Greater }
pub proof fn same_pts<T: PolygonScalar>(a: Seq<Point<T, 2>>, b: Seq<Point<T, 2>>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len()
    ensures forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> b.contains(a[i]), forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> a.contains(b[i])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies b.contains(a[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().contains(a[i])); assert(b.to_multiset().contains(a[i])); }
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies a.contains(b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().contains(b[i])); assert(a.to_multiset().contains(b[i])); }
}
// facts about the sorted points
pub proof fn sorted_fan<T: PolygonScalar>(inp: Seq<Point<T, 2>>, sv: Seq<Point<T, 2>>, o: P2)
    requires
        inp.to_multiset() == sv.to_multiset(), inp.len() == sv.len(), gsorted(o, sv), pxs(inp).contains(o),
        forall|j: int| 0 <= j < inp.len() ==> yxcmp(o, pxy(#[trigger] inp[j])) != Ordering::Greater,
    ensures fan_of(pxs(sv)), pxs(sv)[0] == o, pxs(sv).len() == inp.len(), inp.len() > 0
{
    same_pts(inp, sv);
    let s = pxs(sv);
    assert(s.contains(o)) by {
        let i = choose|i: int| 0 <= i < pxs(inp).len() && pxs(inp)[i] == o;
        assert(sv.contains(inp[i]));
        let k = choose|k: int| 0 <= k < sv.len() && sv[k] == inp[i];
        assert(s[k] == o);
    }
    assert forall|i: int| 0 <= i < s.len() implies yxcmp(o, #[trigger] s[i]) != Ordering::Greater by {
        assert(inp.contains(sv[i]));
        let k = choose|k: int| 0 <= k < inp.len() && inp[k] == sv[i];
        assert(yxcmp(o, pxy(inp[k])) != Ordering::Greater);
    }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies gcmp(o, s[i], s[j]) != Ordering::Greater by { let _ = sv[i]; let _ = sv[j]; }
    fan(o, s);
}
// a hull of the sorted points is a hull of the input
pub proof fn unsort<T: PolygonScalar>(inp: Seq<Point<T, 2>>, sv: Seq<Point<T, 2>>)
    requires inp.to_multiset() == sv.to_multiset(), inp.len() == sv.len()
    ensures forall|v: Seq<P2>| #[trigger] is_hull(v, pxs(sv)) ==> is_hull(v, pxs(inp)), flat(pxs(sv)) ==> flat(pxs(inp))
{
    hide(cring); hide(beyond); hide(cross3);
    same_pts(inp, sv);
    let (a, b) = (pxs(inp), pxs(sv));
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(sv.contains(inp[i])); let k = choose|k: int| 0 <= k < sv.len() && sv[k] == inp[i]; assert(b[k] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(inp.contains(sv[i])); let k = choose|k: int| 0 <= k < inp.len() && inp[k] == sv[i]; assert(a[k] == b[i]); }
    assert forall|v: Seq<P2>| #[trigger] is_hull(v, b) implies is_hull(v, a) by {
        assert forall|i: int| 0 <= i < v.len() implies a.contains(#[trigger] v[i]) by { assert(b.contains(v[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == v[i]; assert(a.contains(b[k])); }
        assert forall|k: int| #![trigger a[k]] 0 <= k < a.len() implies !beyond(v, a[k]) by { assert(b.contains(a[k])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k]; assert(!beyond(v, b[j])); }
    }
    if flat(b) {
        assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < a.len() && 0 <= k < a.len() implies cross3(#[trigger] a[i], #[trigger] a[j], #[trigger] a[k]) == 0real by {
            assert(b.contains(a[i]) && b.contains(a[j]) && b.contains(a[k]));
            let x = choose|x: int| 0 <= x < b.len() && b[x] == a[i]; let y = choose|y: int| 0 <= y < b.len() && b[y] == a[j]; let z = choose|z: int| 0 <= z < b.len() && b[z] == a[k];
            assert(cross3(b[x], b[y], b[z]) == 0real);
        }
    }
}
pub proof fn few(s: Seq<P2>) requires s.len() < 3 ensures flat(s)
{
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() implies cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real by {
        cross3_sym(s[i], s[j], s[k]); if i == j { cross3_sym(s[i], s[i], s[k]); } else if j == k { cross3_sym(s[i], s[j], s[j]); } else { cross3_sym(s[i], s[j], s[i]); }
    }
}
// pts holds the stack, then garbage, then the unread points
pub open spec fn laid<T: PolygonScalar>(pts: Seq<Point<T, 2>>, sv: Seq<Point<T, 2>>, ix: Seq<int>, w: int, r: int) -> bool {
    &&& pts.len() == sv.len() && ix.len() == w + 1 && 1 <= w && w + 1 <= r <= sv.len()
    &&& forall|i: int| 0 <= i <= w ==> #[trigger] pts[i] == sv[ix[i]]
    &&& forall|k: int| r <= k < sv.len() ==> #[trigger] pts[k] == sv[k]
}
pub proof fn finish<T: PolygonScalar>(sv: Seq<Point<T, 2>>, ix: Seq<int>, p: Polygon<T>, pts: Seq<Point<T, 2>>)
    requires pts.len() == ix.len(), p.rings@.len() == 1, p.rings@[0]@.len() == pts.len(), forall|k: int| 0 <= k < pts.len() ==> at(p, 0, k) == #[trigger] pts[k], forall|i: int| 0 <= i < pts.len() ==> #[trigger] pts[i] == sv[ix[i]], incr(ix, sv.len() as int), pts.len() >= 2
    ensures cvs(p) == stk(pxs(sv), ix)
{
    let (a, b) = (cvs(p), stk(pxs(sv), ix));
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(at(p, 0, i) == pts[i]); if i > 0 { inc(ix, sv.len() as int, 0, i); } else { inc(ix, sv.len() as int, 0, 1); } }
    assert(a =~= b);
}
} }
verus! {
//@ fn src/algorithms/convex_hull/graham_scan.rs | - | convex_hull
//@ ret r
//@ spec
    requires pts@.len() <= usize::MAX / 2
    ensures match r {
        Ok(p) => wf(p.0) && sound(p.0) && is_hull(cvs(p.0), pxs(pts@)),
        Err(e) => e == Error::InsufficientVertices && flat(pxs(pts@)),
    }
//@ closure 0
    -> (o: Ordering) ensures o == gcmp(pxy(*smallest), pxy(*a), pxy(*b))
//@ closure 1
    -> (o: Ordering) ensures o == yxcmp(pxy(*a), pxy(*b))
//@ top
    hide(cross3); hide(gra::ginv); hide(gra::on_ray); hide(gra::fan_of); hide(flat); hide(is_hull); hide(acmp); hide(yxcmp);
    proof { gra::tc::<T>(); gra::pclone::<T>(); gral::gcmp_all(); reveal(yxcmp); if pts@.len() < 3 { gral::few(pxs(pts@)); } }
    let ghost inp = pts@;
    let ghost mut ix: Seq<int> = seq![0int, 1int];
    let ghost mut r0: int = 2;
//@ after_stmt pts.sort_unstable_by(
    let ghost sv = pts@;
    let ghost ss = pxs(sv);
    proof {
        gral::sorted_fan(inp, sv, pxy(*smallest)); gral::unsort(inp, sv);
        if sv.len() >= 3 { gra::g_base(ss); }
    }
//@ loop 0
    invariant
        sv.len() >= 3, ss == pxs(sv), pxy(origin) == ss[0], gra::fan_of(ss), write_idx == 1, r0 == read_idx, ix == seq![0int, read_idx - 1], gral::laid(pts@, sv, ix, 1, read_idx as int),
        gra::on_ray(ss, read_idx as int), read_idx == sv.len() ==> gra::ginv(ss, ix, read_idx as int, r0) && gral::found(ss, ix),
    ensures gra::ginv(ss, ix, read_idx as int, r0), read_idx == sv.len() ==> gral::found(ss, ix)
    decreases pts.len() - read_idx
//@ loop_top 0
    proof {
        if cross3(ss[0], ss[read_idx - 1], ss[read_idx as int]) == 0real { gra::g_prefix(ss, read_idx as int); if read_idx + 1 == sv.len() { gra::g_start(ss, read_idx + 1); } }
        else { gra::g_start(ss, read_idx as int); }
    }
//@ loop_bottom 0
    proof { ix = seq![0int, read_idx - 1]; r0 = read_idx as int; if read_idx == sv.len() { gra::g_done(ss, ix, r0); reveal(gra::ginv); } }
//@ loop 1
    invariant sv.len() >= 3, ss == pxs(sv), gral::laid(pts@, sv, ix, write_idx as int, read_idx as int), gra::ginv(ss, ix, read_idx as int, r0), read_idx == sv.len() ==> gral::found(ss, ix)
    decreases 2 * (pts.len() - read_idx) + write_idx
//@ loop_top 1
    proof {
        reveal(gra::ginv);
        let (w, r) = (write_idx as int, read_idx as int);
        gra::inc(ix, r, w - 1, w);
        assert(pts@[w] == sv[ix[w]] && pts@[w - 1] == sv[ix[w - 1]] && pts@[r] == sv[r]);
        if cross3(gra::st(ss, ix, w - 1), gra::st(ss, ix, w), ss[r]) > 0real { gra::g_accept(ss, ix, r, r0); ix = ix.push(r); }
        else { gra::g_pop(ss, ix, r, r0); ix = ix.drop_last(); }
    }
//@ loop_bottom 1
    proof { if read_idx == sv.len() { gra::g_done(ss, ix, r0); reveal(gra::ginv); } }
//@ tail res
    proof { let p = res->Ok_0.0; gral::finish(sv, ix, p, p.points@); reveal(is_hull); convexp::convex_sound(p); }
//@ end
} // verus!
