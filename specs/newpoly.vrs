// Polygon::new accepts exactly the simple rings, in either winding.
verus! {
pub open spec fn vs<T: PolygonScalar>(s: Seq<Point<T, 2>>) -> Seq<P2> { Seq::new(s.len(), |k: int| pxy(s[k])) }
pub open spec fn ring_vs<T: PolygonScalar>(p: Polygon<T>) -> Seq<P2> { Seq::new(p.rings@[0]@.len(), |k: int| pxy(at(p, 0, k))) }
pub open spec fn hseg(a: P2, b: P2) -> Seg { Seg { lo: a, hi: b, loi: true, hii: false } }
// the edge from vertex i (included) to the next (excluded)
pub open spec fn vseg_at(v: Seq<P2>, i: int) -> Seg { hseg(v[i], v[wrapi(i + 1, v.len() as int)]) }
pub open spec fn apart(v: Seq<P2>) -> bool { forall|i: int, j: int| 0 <= j < i < v.len() ==> !meets(#[trigger] vseg_at(v, i), #[trigger] vseg_at(v, j)) }
pub open spec fn no_dup(v: Seq<P2>) -> bool { forall|i: int, j: int| 0 <= j < i < v.len() ==> #[trigger] v[j] != #[trigger] v[i] }
// a simple ring: at least three vertices, all different, and no two edges with a common point
pub open spec fn simple_ring(v: Seq<P2>) -> bool { v.len() >= 3 && no_dup(v) && apart(v) }
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | new
//@ ret r
//@ spec
    ensures match r {
        Ok(q) => simple_ring(vs(points@)) && wf(q) && q.points@ == points@ && q.rings@.len() == 1 && q.rings@[0]@.len() == points@.len()
            && ring_turn(q, Orientation::CounterClockWise)
            && ((forall|k: int| 0 <= k < points@.len() ==> (#[trigger] q.rings@[0]@[k]).0 == k) || (forall|k: int| 0 <= k < points@.len() ==> (#[trigger] q.rings@[0]@[k]).0 == points@.len() - 1 - k)),
        Err(_) => !simple_ring(vs(points@)),
    }
//@ top
    hide(simple_ring); hide(edges_apart); hide(apart); hide(distinct); hide(no_dup); hide(vs); hide(ring_turn); hide(newp::straight); hide(same_rings); hide(rotated); hide(lowest); hide(vturn); hide(okpos);
    let ghost pts = points@;
    proof { newp::short(pts); }
//@ after_stmt let mut p
    let ghost p0 = p;
    proof { newp::start(p, pts); }
//@ after_stmt p.ensure_ccw
    let ghost p1 = p;
    proof { newp::wound(p0, p1, pts); }
//@ end
}
} // verus!
pub mod newp { use super::*; verus! {
// two edges leaving a lexicographically least vertex along one line overlap
pub proof fn spike(a: P2, m: P2, b: P2)
    requires a != m, b != m, a != b, plex(m, a) != Ordering::Greater, plex(m, b) != Ordering::Greater, cross3(a, m, b) == 0real
    ensures meets(hseg(a, m), hseg(m, b))
{
    let (ax, ay, bx, by) = (a.0 - m.0, a.1 - m.1, b.0 - m.0, b.1 - m.1);
    assert(ax * by - ay * bx == 0real) by { rneg(ax, by); rneg(ay, bx); rdd(a.0, m.0, b.1, m.1); rdd(a.1, m.1, b.0, m.0); cross3_sym(a, m, b);
        assert(cross3(m, b, a) == bx * ay - by * ax); rmc(ax, by); rmc(ay, bx); }
    rmul_sign(ax, by); rmul_sign(ay, bx);
    let t = if ax != 0real { bx / ax } else { by / ay };
    if ax != 0real {
        assert(bx != 0real) by { if bx == 0real { assert(ay * bx == 0real) by(nonlinear_arith) requires bx == 0real; assert(by != 0real); } }
        assert(t > 0real && t * ax == bx) by(nonlinear_arith) requires t == bx / ax, ax > 0real, bx > 0real;
        assert(t * ay == by) by(nonlinear_arith) requires t * ax == bx, ax * by - ay * bx == 0real, ax > 0real;
    } else {
        assert(ay > 0real);
        assert(bx == 0real) by { if bx != 0real { assert(ax * by == 0real) by(nonlinear_arith) requires ax == 0real; } }
        assert(t > 0real && t * ay == by) by(nonlinear_arith) requires t == by / ay, ay > 0real, by > 0real;
        assert(t * ax == bx) by(nonlinear_arith) requires ax == 0real, bx == 0real;
    }
    if t > 1real {
        // a lies within [m, b)
        let u = 1real / t;
        assert(u * t == 1real && 0real < u < 1real) by(nonlinear_arith) requires u == 1real / t, t > 1real;
        assert(u * bx == ax) by(nonlinear_arith) requires u * t == 1real, t * ax == bx;
        assert(u * by == ay) by(nonlinear_arith) requires u * t == 1real, t * ay == by;
        assert(seg_at(hseg(m, b), a, u));
        assert(0real * (m.0 - a.0) == 0real && 0real * (m.1 - a.1) == 0real) by(nonlinear_arith);
        assert(seg_at(hseg(a, m), a, 0real));
        assert(seg_has(hseg(a, m), a) && seg_has(hseg(m, b), a));
    } else {
        assert(t != 1real) by { if t == 1real { assert(t * ax == ax && t * ay == ay) by(nonlinear_arith) requires t == 1real; } }
        let h = t / 2real;
        assert(h == 0.5real * t) by(nonlinear_arith) requires h == t / 2real;
        let p = (m.0 + 0.5real * bx, m.1 + 0.5real * by);
        assert(h * ax == 0.5real * bx && h * ay == 0.5real * by) by(nonlinear_arith) requires h == 0.5real * t, t * ax == bx, t * ay == by;
        assert(seg_at(hseg(m, b), p, 0.5real));
        let u = 1real - h;
        assert(a.0 + u * (m.0 - a.0) == p.0) by { rneg(u, ax); rd(ax, 1real, h); assert(m.0 - a.0 == -ax); }
        assert(a.1 + u * (m.1 - a.1) == p.1) by { rneg(u, ay); rd(ay, 1real, h); assert(m.1 - a.1 == -ay); }
        assert(p != m) by { if p == m { assert(bx == 0real && by == 0real); } }
        assert(p != a) by { if p == a { assert(h * ax == ax && h * ay == ay); assert(ax == 0real && ay == 0real) by(nonlinear_arith) requires h * ax == ax, h * ay == ay, h < 1real; } }
        assert(seg_at(hseg(a, m), p, u));
        assert(seg_has(hseg(a, m), p) && seg_has(hseg(m, b), p));
    }
}
proof fn flip(a: P2, b: P2, p: P2)
    requires seg_has(hseg(a, b), p), p != a
    ensures seg_has(hseg(b, a), p)
{
    let t = choose|t: real| seg_at(hseg(a, b), p, t);
    let u = 1real - t;
    rd(a.0 - b.0, 1real, t); rd(a.1 - b.1, 1real, t); rneg(t, a.0 - b.0); rneg(t, a.1 - b.1);
    assert(b.0 - a.0 == -(a.0 - b.0) && b.1 - a.1 == -(a.1 - b.1));
    assert(seg_at(hseg(b, a), p, u));
}
proof fn has_start(a: P2, b: P2) requires a != b ensures seg_has(hseg(a, b), a)
{
    assert(0real * (b.0 - a.0) == 0real && 0real * (b.1 - a.1) == 0real) by(nonlinear_arith);
    assert(seg_at(hseg(a, b), a, 0real));
}
pub open spec fn rv(v: Seq<P2>) -> Seq<P2> { Seq::new(v.len(), |k: int| v[v.len() - 1 - k]) }
// edge k of the reversed ring is edge n-2-k of the ring, backwards
pub open spec fn re(n: int, k: int) -> int { if k == n - 1 { n - 1 } else { n - 2 - k } }
// reading a simple ring backwards: the closed ends change, but nothing else
pub proof fn backwards(v: Seq<P2>)
    requires v.len() >= 3, no_dup(v), apart(v)
    ensures apart(rv(v)), no_dup(rv(v))
{
    hide(seg_has);
    let r = rv(v); let n = v.len() as int;
    assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] r[j] != #[trigger] r[i] by { assert(v[n - 1 - i] != v[n - 1 - j]); }
    assert forall|i: int, j: int| 0 <= j < i < n implies !meets(#[trigger] vseg_at(r, i), #[trigger] vseg_at(r, j)) by {
        if meets(vseg_at(r, i), vseg_at(r, j)) { let p = choose|p: P2| seg_has(vseg_at(r, i), p) && seg_has(vseg_at(r, j), p); clash(v, i, j, p); }
    }
}
proof fn not_both(v: Seq<P2>, i: int, j: int, p: P2)
    requires apart(v), 0 <= i < v.len(), 0 <= j < v.len(), i != j, seg_has(vseg_at(v, i), p), seg_has(vseg_at(v, j), p)
    ensures false
{
    assert(meets(vseg_at(v, i), vseg_at(v, j)) && meets(vseg_at(v, j), vseg_at(v, i)));
}
proof fn clash(v: Seq<P2>, i: int, j: int, p: P2)
    requires v.len() >= 3, no_dup(v), apart(v), 0 <= j < i < v.len(), seg_has(vseg_at(rv(v), i), p), seg_has(vseg_at(rv(v), j), p)
    ensures false
{
    hide(seg_has); hide(meets); hide(apart);
    let r = rv(v); let n = v.len() as int;
    let (a, b) = (re(n, i), re(n, j));
    let (a1, b1) = (wrapi(a + 1, n), wrapi(b + 1, n));
    assert(a != b && 0 <= a < n && 0 <= b < n);
    // edge i of r runs from v[a1] (included) to v[a] (excluded)
    assert(r[i] == v[a1] && r[wrapi(i + 1, n)] == v[a]);
    assert(r[j] == v[b1] && r[wrapi(j + 1, n)] == v[b]);
    assert(vseg_at(r, i) == hseg(v[a1], v[a]) && vseg_at(r, j) == hseg(v[b1], v[b]));
    if p != v[a1] && p != v[b1] {
        flip(v[a1], v[a], p); flip(v[b1], v[b], p);
        not_both(v, a, b, p);
    } else if p == v[a1] {
        // p starts edge a1
        let a2 = wrapi(a1 + 1, n);
        assert(v[a1] != v[a2]);
        has_start(v[a1], v[a2]);
        if p == v[b1] { assert(a1 != b1); if a1 < b1 { assert(v[a1] != v[b1]); } else { assert(v[b1] != v[a1]); } }
        flip(v[b1], v[b], p);
        if b != a1 { not_both(v, a1, b, p); } else { ends_out(v[b1], v[b]); }
    } else {
        let b2 = wrapi(b1 + 1, n);
        assert(v[b1] != v[b2]);
        has_start(v[b1], v[b2]);
        flip(v[a1], v[a], p);
        if a != b1 { not_both(v, b1, a, p); } else { ends_out(v[a1], v[a]); }
    }
}
proof fn ends_out(a: P2, b: P2) ensures !seg_has(hseg(a, b), b) { if seg_has(hseg(a, b), b) { let t = choose|t: real| seg_at(hseg(a, b), b, t); } }
pub open spec fn vlow(v: Seq<P2>, k: int) -> bool { 0 <= k < v.len() && forall|j: int| 0 <= j < v.len() ==> plex(v[k], #[trigger] v[j]) != Ordering::Greater }
pub open spec fn vturn_at(v: Seq<P2>, k: int) -> Orientation { orient3(v[wrapi(k - 1, v.len() as int)], v[k], v[wrapi(k + 1, v.len() as int)]) }
pub proof fn one_low(v: Seq<P2>, j: int, k: int)
    requires no_dup(v), vlow(v, j), vlow(v, k)
    ensures j == k
{ assert(plex(v[j], v[k]) != Ordering::Greater && plex(v[k], v[j]) != Ordering::Greater); if j < k { assert(v[j] != v[k]); } if k < j { assert(v[k] != v[j]); } }
// a colinear turn at a lowest vertex is a spike
pub proof fn flat_low(v: Seq<P2>, k: int)
    requires v.len() >= 3, no_dup(v), vlow(v, k), vturn_at(v, k) == Orientation::CoLinear
    ensures !apart(v)
{
    let n = v.len() as int; let (i, j) = (wrapi(k - 1, n), wrapi(k + 1, n));
    assert(v[i] != v[k]) by { if i < k { assert(v[i] != v[k]); } else { assert(v[k] != v[i]); } }
    assert(v[j] != v[k]) by { if j < k { assert(v[j] != v[k]); } else { assert(v[k] != v[j]); } }
    assert(v[i] != v[j]) by { if i < j { assert(v[i] != v[j]); } else { assert(v[j] != v[i]); } }
    spike(v[i], v[k], v[j]);
    assert(vseg_at(v, i) == hseg(v[i], v[k]) && vseg_at(v, k) == hseg(v[k], v[j]));
    if apart(v) { let p = choose|p: P2| seg_has(hseg(v[i], v[k]), p) && seg_has(hseg(v[k], v[j]), p); not_both(v, i, k, p); }
}
pub proof fn turn_back(v: Seq<P2>, k: int)
    requires vlow(rv(v), k)
    ensures vlow(v, v.len() - 1 - k), vturn_at(rv(v), k) == orev_o(vturn_at(v, v.len() - 1 - k))
{
    let n = v.len() as int; let m = n - 1 - k;
    assert forall|j: int| 0 <= j < n implies plex(v[m], #[trigger] v[j]) != Ordering::Greater by { assert(rv(v)[n - 1 - j] == v[j]); }
    let (i, j) = (wrapi(m - 1, n), wrapi(m + 1, n));
    assert(rv(v)[wrapi(k - 1, n)] == v[j] && rv(v)[wrapi(k + 1, n)] == v[i]);
    cross3_sym(v[i], v[m], v[j]); cross3_sym(v[j], v[m], v[i]);
}
pub open spec fn orev_o(o: Orientation) -> Orientation { match o { Orientation::CounterClockWise => Orientation::ClockWise, Orientation::ClockWise => Orientation::CounterClockWise, Orientation::CoLinear => Orientation::CoLinear } }
// the facts about polygons in terms of their vertex lists
pub proof fn ring_facts<T: PolygonScalar>(p: Polygon<T>, v: Seq<P2>)
    requires wf(p), v == ring_vs(p)
    ensures
        edges_apart(p) == apart(v),
        forall|o: Orientation| #[trigger] ring_turn(p, o) ==> exists|k: int| #[trigger] vlow(v, k) && o == vturn_at(v, k),
{
    hide(meets);
    let n = v.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] ring_seg(p, i) == vseg_at(v, i) by { }
    if apart(v) { assert forall|i: int, j: int| 0 <= j < i < n implies !meets(#[trigger] ring_seg(p, i), #[trigger] ring_seg(p, j)) by { assert(!meets(vseg_at(v, i), vseg_at(v, j))); } }
    if edges_apart(p) { assert forall|i: int, j: int| 0 <= j < i < n implies !meets(#[trigger] vseg_at(v, i), #[trigger] vseg_at(v, j)) by { assert(!meets(ring_seg(p, i), ring_seg(p, j))); } }
    assert forall|o: Orientation| #[trigger] ring_turn(p, o) implies exists|k: int| #[trigger] vlow(v, k) && o == vturn_at(v, k) by {
        let k = choose|k: int| #[trigger] lowest(p, k) && o == vturn(p, 0, k);
        assert forall|j: int| 0 <= j < n implies plex(v[k], #[trigger] v[j]) != Ordering::Greater by { let _ = at(p, 0, j); }
        assert(vlow(v, k));
    }
}
pub open spec fn straight<T: PolygonScalar>(p: Polygon<T>, pts: Seq<Point<T, 2>>) -> bool { wf(p) && p.points@ == pts && p.rings@.len() == 1 && p.rings@[0]@.len() == pts.len() && forall|k: int| 0 <= k < pts.len() ==> (#[trigger] p.rings@[0]@[k]).0 == k }
pub open spec fn turned<T: PolygonScalar>(p: Polygon<T>, pts: Seq<Point<T, 2>>) -> bool { wf(p) && p.points@ == pts && p.rings@.len() == 1 && p.rings@[0]@.len() == pts.len() && forall|k: int| 0 <= k < pts.len() ==> (#[trigger] p.rings@[0]@[k]).0 == pts.len() - 1 - k }
pub open spec fn non_ccw<T: PolygonScalar>(p: Polygon<T>) -> bool { ring_turn(p, Orientation::ClockWise) || ring_turn(p, Orientation::CoLinear) }
pub proof fn as_given<T: PolygonScalar>(p: Polygon<T>, pts: Seq<Point<T, 2>>)
    requires straight(p, pts), pts.len() >= 3
    ensures
        ring_turn(p, Orientation::CoLinear) ==> !simple_ring(vs(pts)),
        distinct(pts) == no_dup(vs(pts)), edges_apart(p) == apart(vs(pts)),
        ring_turn(p, Orientation::CounterClockWise) && non_ccw(p) ==> !simple_ring(vs(pts)),
{
    let v = vs(pts);
    assert(ring_vs(p) =~= v);
    ring_facts(p, v);
    dups(pts);
    if no_dup(v) {
        if ring_turn(p, Orientation::CoLinear) { let k = choose|k: int| #[trigger] vlow(v, k) && Orientation::CoLinear == vturn_at(v, k); flat_low(v, k); }
        if ring_turn(p, Orientation::CounterClockWise) && ring_turn(p, Orientation::ClockWise) {
            let k = choose|k: int| #[trigger] vlow(v, k) && Orientation::CounterClockWise == vturn_at(v, k);
            let j = choose|k: int| #[trigger] vlow(v, k) && Orientation::ClockWise == vturn_at(v, k);
            one_low(v, k, j);
        }
    }
}
proof fn dups<T: PolygonScalar>(pts: Seq<Point<T, 2>>) ensures distinct(pts) == no_dup(vs(pts))
{
    let v = vs(pts);
    if distinct(pts) { assert forall|i: int, j: int| 0 <= j < i < v.len() implies #[trigger] v[j] != #[trigger] v[i] by { assert(pxy(pts[j]) != pxy(pts[i])); } }
    if no_dup(v) { assert forall|i: int, j: int| 0 <= j < i < pts.len() implies pxy(#[trigger] pts[j]) != pxy(#[trigger] pts[i]) by { assert(v[j] != v[i]); } }
}
proof fn turned_low(v: Seq<P2>, w: Seq<P2>, o: Orientation)
    requires no_dup(v), w == rv(v), exists|k: int| #[trigger] vlow(v, k) && Orientation::ClockWise == vturn_at(v, k), exists|k: int| #[trigger] vlow(w, k) && o == vturn_at(w, k)
    ensures o == Orientation::CounterClockWise
{
    let k = choose|k: int| #[trigger] vlow(v, k) && Orientation::ClockWise == vturn_at(v, k);
    let j = choose|j: int| #[trigger] vlow(w, j) && o == vturn_at(w, j);
    turn_back(v, j);
    one_low(v, k, v.len() - 1 - j);
}
proof fn both_ways(v: Seq<P2>) requires v.len() >= 3, no_dup(v) ensures apart(v) == apart(rv(v)), no_dup(rv(v))
{
    let w = rv(v); let n = v.len() as int;
    assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] w[j] != #[trigger] w[i] by { assert(v[n - 1 - i] != v[n - 1 - j]); }
    assert(rv(w) =~= v);
    if apart(v) { backwards(v); }
    if apart(w) { backwards(w); }
}
pub proof fn as_turned<T: PolygonScalar>(p: Polygon<T>, q: Polygon<T>, pts: Seq<Point<T, 2>>)
    requires straight(p, pts), turned(q, pts), pts.len() >= 3, ring_turn(p, Orientation::ClockWise)
    ensures
        distinct(pts) ==> edges_apart(q) == apart(vs(pts)),
        non_ccw(q) ==> !simple_ring(vs(pts)),
{
    let v = vs(pts); let w = rv(v);
    assert(ring_vs(p) =~= v); assert(ring_vs(q) =~= w);
    ring_facts(p, v); ring_facts(q, w); dups(pts);
    if no_dup(v) {
        both_ways(v);
        if ring_turn(q, Orientation::ClockWise) { turned_low(v, w, Orientation::ClockWise); }
        if ring_turn(q, Orientation::CoLinear) { turned_low(v, w, Orientation::CoLinear); }
    }
}
pub proof fn short<T: PolygonScalar>(pts: Seq<Point<T, 2>>) ensures pts.len() < 3 ==> !simple_ring(vs(pts)) {}
pub proof fn start<T: PolygonScalar>(p: Polygon<T>, pts: Seq<Point<T, 2>>)
    requires wf(p), pts.len() >= 3, p.points@ == pts, p.rings@.len() == 1, p.rings@[0]@.len() == pts.len(), forall|k: int| 0 <= k < pts.len() ==> (#[trigger] p.rings@[0]@[k]).0 == k
    ensures straight(p, pts), ring_turn(p, Orientation::CoLinear) ==> !simple_ring(vs(pts))
{ as_given(p, pts); }
// after ensure_ccw: what the remaining checks decide
pub proof fn wound<T: PolygonScalar>(p: Polygon<T>, q: Polygon<T>, pts: Seq<Point<T, 2>>)
    requires straight(p, pts), pts.len() >= 3, wf(q), q.points == p.points,
        ring_turn(p, Orientation::CounterClockWise) && q == p || ring_turn(p, Orientation::ClockWise) && same_rings(p, q, 0) && q.rings@[0]@ == p.rings@[0]@.reverse()
    ensures
        q.points@ == pts && q.rings@.len() == 1 && q.rings@[0]@.len() == pts.len(),
        (forall|k: int| 0 <= k < pts.len() ==> (#[trigger] q.rings@[0]@[k]).0 == k) || (forall|k: int| 0 <= k < pts.len() ==> (#[trigger] q.rings@[0]@[k]).0 == pts.len() - 1 - k),
        ring_turn(q, Orientation::ClockWise) || ring_turn(q, Orientation::CoLinear) ==> !simple_ring(vs(pts)),
        !distinct(pts) ==> !simple_ring(vs(pts)),
        !edges_apart(q) ==> !simple_ring(vs(pts)),
        distinct(pts) && edges_apart(q) ==> simple_ring(vs(pts)),
{
    as_given(p, pts);
    if q != p { assert(turned(q, pts)); as_turned(p, q, pts); }
}
} }
