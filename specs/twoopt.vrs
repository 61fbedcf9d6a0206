// Two-opt: untangling a ring of distinct points until no two edges touch.
#[allow(unused_imports)] use std::ops::Bound::*;
verus! {
pub open spec fn medge(a: PointId, b: PointId) -> IndexEdge { if a.0 <= b.0 { IndexEdge { min: a, max: b } } else { IndexEdge { min: b, max: a } } }
pub open spec fn redge(r: Seq<PointId>, k: int) -> IndexEdge { medge(r[k], r[wrapi(k + 1, r.len() as int)]) }
pub open spec fn is_edge(r: Seq<PointId>, e: IndexEdge) -> bool { exists|k: int| 0 <= k < r.len() && #[trigger] redge(r, k) == e }
// e is one of the edges of the ring from the i-th on
pub open spec fn later(r: Seq<PointId>, i: int, e: IndexEdge) -> bool { exists|k: int| i <= k < r.len() && #[trigger] redge(r, k) == e }
pub open spec fn pending(s: Seq<IndexEdge>, i: int, e: IndexEdge) -> bool { exists|k: int| i <= k < s.len() && #[trigger] s[k] == e }
// the edge e without the ends it shares with f
pub open spec fn iseg(u: Seq<P2>, e: IndexEdge, f: IndexEdge) -> Seg { Seg { lo: u[e.min.0 as int], hi: u[e.max.0 as int], loi: e.min != f.min && e.min != f.max, hii: e.max != f.min && e.max != f.max } }
pub open spec fn tangle(u: Seq<P2>, e: IndexEdge, f: IndexEdge) -> bool { meets(iseg(u, e, f), iseg(u, f, e)) }
// the pairs that belong in the set
pub open spec fn due(r: Seq<PointId>, u: Seq<P2>, e: IndexEdge, f: IndexEdge) -> bool { is_edge(r, e) && is_edge(r, f) && ecmp(e, f) == Ordering::Less && tangle(u, e, f) }
pub open spec fn only_due(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>) -> bool { forall|e: IndexEdge, f: IndexEdge| #[trigger] held(s, e, f) ==> due(r, u, e, f) }
pub open spec fn linked(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>) -> bool { s.wf() && s.n() == r.len() && forall|e: IndexEdge, f: IndexEdge| #![trigger held(s, e, f)] #![trigger due(r, u, e, f)] held(s, e, f) == due(r, u, e, f) }
pub open spec fn pedge(r: Seq<PointId>, from: int, k: int) -> IndexEdge { medge(rix(r, from, k), rix(r, from, wrapi(k + 1, r.len() as int))) }
// b has the edges of r without d1 d2 d3, and i1 i2 i3
pub open spec fn rewired(r: Seq<PointId>, b: Seq<PointId>, d1: IndexEdge, d2: IndexEdge, d3: IndexEdge, i1: IndexEdge, i2: IndexEdge, i3: IndexEdge) -> bool {
    forall|e: IndexEdge| #[trigger] is_edge(b, e) <==> e == i1 || e == i2 || e == i3 || (is_edge(r, e) && e != d1 && e != d2 && e != d3)
}
// kept opaque: they would otherwise be instantiated all over
#[verifier::opaque] pub open spec fn nodups(r: Seq<PointId>) -> bool { r.no_duplicates() }
#[verifier::opaque] pub open spec fn alld<T: PolygonScalar>(s: Seq<Point<T, 2>>) -> bool { distinct(s) }
pub open spec fn ring1<T: PolygonScalar>(p: Polygon<T>) -> bool { wf(p) && p.rings@.len() == 1 && alld(p.points@) && p.rings@[0]@.len() == p.points@.len() && p.points@.len() >= 3 }
pub open spec fn all_flat<T: PolygonScalar>(p: Polygon<T>) -> bool { forall|k: int| 0 <= k < p.rings@[0]@.len() ==> #[trigger] vturn(p, 0, k) == Orientation::CoLinear }
pub open spec fn on_line(s: Seq<P2>) -> bool { forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() ==> cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real }
} // verus!
pub mod twop { use super::*; verus! {
pub proof fn no_dups<T: PolygonScalar>(p: Polygon<T>)
    requires wf(p), p.rings@.len() == 1
    ensures nodups(p.rings@[0]@), forall|k: int| 0 <= k < p.rings@[0]@.len() ==> (#[trigger] p.rings@[0]@[k]).0 < p.points@.len()
{ reveal(nodups);
    let r = p.rings@[0]@;
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(p.position_index@[r[i].0 as int].0 == i && p.position_index@[r[j].0 as int].0 == j); }
}
pub proof fn inj(r: Seq<PointId>, i: int, j: int)
    requires nodups(r), r.len() >= 3, 0 <= i < r.len(), 0 <= j < r.len(), redge(r, i) == redge(r, j)
    ensures i == j
{ reveal(nodups);
    let n = r.len() as int; let (a, b) = (wrapi(i + 1, n), wrapi(j + 1, n));
    assert(r[i] == r[j] || r[i] == r[b] && r[a] == r[j]);
}
pub proof fn turned_edges(r: Seq<PointId>, from: int)
    requires 0 <= from < r.len()
    ensures
        forall|k: int| 0 <= k < r.len() ==> #[trigger] pedge(r, from, k) == redge(r, wrapi(from + k, r.len() as int)),
        forall|e: IndexEdge| #[trigger] is_edge(r, e) <==> exists|k: int| 0 <= k < r.len() && #[trigger] pedge(r, from, k) == e,
{
    let n = r.len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] pedge(r, from, k) == redge(r, wrapi(from + k, n)) by { }
    assert forall|e: IndexEdge| #[trigger] is_edge(r, e) implies exists|k: int| 0 <= k < r.len() && #[trigger] pedge(r, from, k) == e by {
        let k = choose|k: int| 0 <= k < n && redge(r, k) == e; let m = wrapi(k - from, n);
        assert(wrapi(from + m, n) == k); assert(pedge(r, from, m) == e);
    }
    assert forall|e: IndexEdge| (exists|k: int| 0 <= k < r.len() && #[trigger] pedge(r, from, k) == e) implies #[trigger] is_edge(r, e) by {
        let k = choose|k: int| 0 <= k < n && #[trigger] pedge(r, from, k) == e; assert(redge(r, wrapi(from + k, n)) == e);
    }
}
pub proof fn pinj(r: Seq<PointId>, from: int, i: int, j: int)
    requires nodups(r), r.len() >= 3, 0 <= from < r.len(), 0 <= i < r.len(), 0 <= j < r.len(), pedge(r, from, i) == pedge(r, from, j)
    ensures i == j
{ reveal(nodups); turned_edges(r, from); inj(r, wrapi(from + i, r.len() as int), wrapi(from + j, r.len() as int)); }
#[verifier::rlimit(40)]
pub proof fn uncrossed(r: Seq<PointId>, b: Seq<PointId>, from: int, len: int)
    requires rev_upto(r, b, from, len, len), 2 <= len < r.len(), r.len() >= 3, 0 <= from < r.len(), nodups(r)
    ensures
        ({ let n = r.len() as int; let (d1, d2) = (pedge(r, from, len - 1), pedge(r, from, n - 1)); let (i1, i2) = (medge(rix(r, from, n - 1), rix(r, from, len - 1)), medge(rix(r, from, 0), rix(r, from, len)));
           rewired(r, b, d1, d2, d2, i1, i2, i2) })
{ reveal(nodups);
    let n = r.len() as int; let (d1, d2) = (pedge(r, from, len - 1), pedge(r, from, n - 1)); let (i1, i2) = (medge(rix(r, from, n - 1), rix(r, from, len - 1)), medge(rix(r, from, 0), rix(r, from, len)));
    turned_edges(r, from); turned_edges(b, from);
    assert forall|k: int| 0 <= k < n implies #[trigger] rix(b, from, k) == if k < len { rix(r, from, len - 1 - k) } else { rix(r, from, k) } by { }
    assert(pedge(b, from, len - 1) == i2) by { let _ = rix(b, from, len); }
    assert(pedge(b, from, n - 1) == i1) by { let _ = rix(b, from, 0); }
    assert forall|k: int| 0 <= k < len - 1 implies #[trigger] pedge(b, from, k) == pedge(r, from, len - 2 - k) by { let _ = (rix(b, from, k), rix(b, from, k + 1)); }
    assert forall|k: int| len <= k < n - 1 implies #[trigger] pedge(b, from, k) == pedge(r, from, k) by { let _ = (rix(b, from, k), rix(b, from, k + 1)); }
    assert forall|e: IndexEdge| #[trigger] is_edge(b, e) <==> e == i1 || e == i2 || (is_edge(r, e) && e != d1 && e != d2) by {
        if is_edge(b, e) {
            let k = choose|k: int| 0 <= k < n && #[trigger] pedge(b, from, k) == e;
            if k == len - 1 || k == n - 1 { } else {
                let m = if k < len - 1 { len - 2 - k } else { k };
                assert(pedge(r, from, m) == e);
                if e == d1 { pinj(r, from, m, len - 1); } if e == d2 { pinj(r, from, m, n - 1); }
            }
        }
        if is_edge(r, e) && e != d1 && e != d2 {
            let m = choose|k: int| 0 <= k < n && #[trigger] pedge(r, from, k) == e;
            let k = if m < len - 1 { len - 2 - m } else { m };
            assert(pedge(b, from, k) == e);
        }
    }
}
pub proof fn moved(r: Seq<PointId>, b: Seq<PointId>, from: int, len: int)
    requires joined(r, b, from, len, len - 1), 2 <= len < r.len(), r.len() >= 3, 0 <= from < r.len(), nodups(r)
    ensures
        ({ let n = r.len() as int; let (d1, d2, d3) = (pedge(r, from, len - 1), pedge(r, from, len), pedge(r, from, 0));
           let (i1, i2, i3) = (medge(rix(r, from, len - 1), rix(r, from, wrapi(len + 1, n))), medge(rix(r, from, 0), rix(r, from, len)), medge(rix(r, from, len), rix(r, from, 1)));
           rewired(r, b, d1, d2, d3, i1, i2, i3) })
{ reveal(nodups);
    let n = r.len() as int; let (d1, d2, d3) = (pedge(r, from, len - 1), pedge(r, from, len), pedge(r, from, 0));
    let (i1, i2, i3) = (medge(rix(r, from, len - 1), rix(r, from, wrapi(len + 1, n))), medge(rix(r, from, 0), rix(r, from, len)), medge(rix(r, from, len), rix(r, from, 1)));
    turned_edges(r, from); turned_edges(b, from);
    assert forall|k: int| 0 <= k < n implies #[trigger] rix(b, from, k) == if k == 1 { rix(r, from, len) } else if 1 < k <= len { rix(r, from, k - 1) } else { rix(r, from, k) } by { }
    assert(pedge(b, from, 0) == i2) by { let _ = (rix(b, from, 0), rix(b, from, 1)); }
    assert(pedge(b, from, 1) == i3) by { let _ = (rix(b, from, 1), rix(b, from, 2)); }
    assert(pedge(b, from, len) == i1) by { let _ = (rix(b, from, len), rix(b, from, wrapi(len + 1, n))); }
    assert forall|k: int| 2 <= k < len implies #[trigger] pedge(b, from, k) == pedge(r, from, k - 1) by { let _ = (rix(b, from, k), rix(b, from, k + 1)); }
    assert forall|k: int| len < k < n implies #[trigger] pedge(b, from, k) == pedge(r, from, k) by { let _ = (rix(b, from, k), rix(b, from, wrapi(k + 1, n))); }
    assert forall|e: IndexEdge| #[trigger] is_edge(b, e) <==> e == i1 || e == i2 || e == i3 || (is_edge(r, e) && e != d1 && e != d2 && e != d3) by {
        if is_edge(b, e) {
            let k = choose|k: int| 0 <= k < n && #[trigger] pedge(b, from, k) == e;
            if k == 0 || k == 1 || k == len { } else {
                let m = if k < len { k - 1 } else { k };
                assert(pedge(r, from, m) == e);
                if e == d1 { pinj(r, from, m, len - 1); } if e == d2 { pinj(r, from, m, len); } if e == d3 { pinj(r, from, m, 0); }
            }
        }
        if is_edge(r, e) && e != d1 && e != d2 && e != d3 {
            let m = choose|k: int| 0 <= k < n && #[trigger] pedge(r, from, k) == e;
            let k = if m < len { m + 1 } else { m };
            assert(pedge(b, from, k) == e);
        }
    }
}
pub proof fn edge_valid(r: Seq<PointId>, n: int, e: IndexEdge)
    requires nodups(r), r.len() >= 2, forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0 < n, is_edge(r, e)
    ensures evalid(e, n)
{ reveal(nodups); let k = choose|k: int| 0 <= k < r.len() && redge(r, k) == e; let m = wrapi(k + 1, r.len() as int); assert(r[k] != r[m]); }
pub proof fn tangle_sym(u: Seq<P2>, e: IndexEdge, f: IndexEdge) ensures tangle(u, e, f) == tangle(u, f, e) {
    hide(seg_has);
    if tangle(u, e, f) { let p = choose|p: P2| seg_has(iseg(u, e, f), p) && seg_has(iseg(u, f, e), p); assert(tangle(u, f, e)); }
    if tangle(u, f, e) { let p = choose|p: P2| seg_has(iseg(u, e, f), p) && seg_has(iseg(u, f, e), p); assert(tangle(u, e, f)); }
}
// two edges that share an end and touch elsewhere lie on one line
pub proof fn shared_line(a: P2, b: P2, c: P2, s: Seg, t: Seg)
    requires s.lo == a && s.hi == b && !s.hii || s.lo == b && s.hi == a && !s.loi, t.lo == c && t.hi == b && !t.hii || t.lo == b && t.hi == c && !t.loi, meets(s, t)
    ensures cross3(a, b, c) == 0real
{
    let p = choose|p: P2| seg_has(s, p) && seg_has(t, p);
    let i = choose|i: real| seg_at(s, p, i); let j = choose|j: real| seg_at(t, p, j);
    assert(p != b);
    let k = if s.lo == a { i } else { 1real - i };
    // p is on the line a b
    assert(cross3(a, b, p) == 0real) by {
        cross_at(a, b, s.lo, s.hi, i);
        assert(cross3(a, b, a) == 0real && cross3(a, b, b) == 0real) by { rmul_sign(b.0 - a.0, 0real); rmul_sign(b.1 - a.1, 0real); rmc(b.0 - a.0, b.1 - a.1); }
        rmul_sign(i, 0real);
    }
    assert(cross3(a, b, b) == 0real) by { rmc(b.0 - a.0, b.1 - a.1); }
    cross_at(a, b, t.lo, t.hi, j);
    let x = cross3(a, b, c);
    if t.lo == c {
        assert(0real == x + j * (0real - x));
        assert((1real - j) * x == 0real) by(nonlinear_arith) requires 0real == x + j * (0real - x);
        if x != 0real { rmul_sign(1real - j, x); assert(j == 1real); assert(1real * (t.hi.0 - t.lo.0) == t.hi.0 - t.lo.0 && 1real * (t.hi.1 - t.lo.1) == t.hi.1 - t.lo.1) by(nonlinear_arith); assert(p == b); }
    } else {
        assert(j * x == 0real) by(nonlinear_arith) requires 0real == 0real + j * (x - 0real);
        if x != 0real { rmul_sign(j, x); assert(j == 0real); assert(0real * (t.hi.0 - t.lo.0) == 0real && 0real * (t.hi.1 - t.lo.1) == 0real) by(nonlinear_arith); assert(p == b); }
    }
}
proof fn widen(s: Seg, p: P2)
    requires seg_has(s, p)
    ensures forall|t: Seg| #[trigger] seg_has(t, p) || !(t.lo == s.lo && t.hi == s.hi && (p == s.lo ==> t.loi) && (p == s.hi ==> t.hii))
{
    let i = choose|i: real| seg_at(s, p, i);
    assert forall|t: Seg| #[trigger] seg_has(t, p) || !(t.lo == s.lo && t.hi == s.hi && (p == s.lo ==> t.loi) && (p == s.hi ==> t.hii)) by { if t.lo == s.lo && t.hi == s.hi && (p == s.lo ==> t.loi) && (p == s.hi ==> t.hii) { assert(seg_at(t, p, i)); } }
}
pub open spec fn flipped(s: Seg) -> Seg { Seg { lo: s.hi, loi: s.hii, hi: s.lo, hii: s.loi } }
// p is on the half-open edge a b, and not at an end excluded from the index edge
proof fn in_iseg(a: P2, b: P2, p: P2, s: Seg)
    requires seg_has(hseg(a, b), p), s.lo == a && s.hi == b || s.lo == b && s.hi == a, p == s.lo ==> s.loi, p == s.hi ==> s.hii
    ensures seg_has(s, p)
{
    let h = Seg { lo: a, hi: b, loi: true, hii: true };
    widen(hseg(a, b), p);
    assert(seg_has(h, p));
    if s.lo == a && s.hi == b { let _ = seg_has(s, p); }
    else { edgep::same_has(h, flipped(h)); assert(seg_has(flipped(h), p)); widen(flipped(h), p); let _ = seg_has(s, p); }
}
// the segments the code builds are the index edges without their shared ends
pub proof fn read_as(u: Seq<P2>, e: IndexEdge, f: IndexEdge)
    ensures forall|s: Seg, t: Seg| #![trigger meets(s, t)] (s == iseg(u, e, f) || s == flipped(iseg(u, e, f))) && (t == iseg(u, f, e) || t == flipped(iseg(u, f, e))) ==> meets(s, t) == tangle(u, e, f)
{
    hide(meets);
    assert forall|s: Seg, t: Seg| #![trigger meets(s, t)] (s == iseg(u, e, f) || s == flipped(iseg(u, e, f))) && (t == iseg(u, f, e) || t == flipped(iseg(u, f, e))) implies meets(s, t) == tangle(u, e, f) by {
        validp::same_meets(iseg(u, e, f), iseg(u, f, e), s, t);
    }
}
proof fn ends_only(a: P2, b: P2, p: P2) requires seg_has(hseg(a, b), p) ensures p != b { let t = choose|t: real| seg_at(hseg(a, b), p, t); }
// edges that do not touch have no common point, read as half-open edges
pub proof fn off(r: Seq<PointId>, u: Seq<P2>, v: Seq<P2>, i: int, j: int)
    requires
        nodups(r), r.len() >= 3, no_dup(v), v.len() == r.len(), 0 <= i < r.len(), 0 <= j < r.len(), i != j,
        forall|k: int| 0 <= k < r.len() ==> #[trigger] v[k] == u[r[k].0 as int],
        !tangle(u, redge(r, i), redge(r, j))
    ensures !meets(vseg_at(v, i), vseg_at(v, j))
{
    hide(seg_has); reveal(nodups);
    let n = r.len() as int; let (i1, j1) = (wrapi(i + 1, n), wrapi(j + 1, n)); let (e, f) = (redge(r, i), redge(r, j));
    if meets(vseg_at(v, i), vseg_at(v, j)) {
        let p = choose|p: P2| seg_has(vseg_at(v, i), p) && seg_has(vseg_at(v, j), p);
        assert(r[i] != r[i1] && r[j] != r[j1] && r[i] != r[j] && r[i1] != r[j1]);
        ends_only(v[i], v[i1], p); ends_only(v[j], v[j1], p);
        let (s, t) = (iseg(u, e, f), iseg(u, f, e));
        // p is none of the shared ends: those are the destination of one of the two
        assert(p == s.lo ==> s.loi) by { if p == s.lo && !s.loi { if e.min == r[i] { assert(e.min == r[j1]); assert(r[i] == r[j1]); } } }
        assert(p == s.hi ==> s.hii) by { if p == s.hi && !s.hii { if e.max == r[i] { assert(e.max == r[j1]); } } }
        assert(p == t.lo ==> t.loi) by { if p == t.lo && !t.loi { if f.min == r[j] { assert(f.min == r[i1]); } } }
        assert(p == t.hi ==> t.hii) by { if p == t.hi && !t.hii { if f.max == r[j] { assert(f.max == r[i1]); } } }
        in_iseg(v[i], v[i1], p, s); in_iseg(v[j], v[j1], p, t);
        assert(meets(s, t));
    }
}
pub proof fn ecmp_total(e: IndexEdge, f: IndexEdge) ensures e != f ==> ecmp(e, f) == Ordering::Less || ecmp(f, e) == Ordering::Less, ecmp(e, e) == Ordering::Equal, ecmp(e, f) == Ordering::Less ==> ecmp(f, e) != Ordering::Less {}
// nothing left in the set: the ring is simple
pub proof fn done<T: PolygonScalar>(p: Polygon<T>, s: IndexIntersectionSet)
    requires ring1(p), linked(s, p.rings@[0]@, vs(p.points@)), forall|e: IndexEdge, f: IndexEdge| !#[trigger] held(s, e, f)
    ensures simple_ring(ring_vs(p))
{
    hide(meets);
    let r = p.rings@[0]@; let u = vs(p.points@); let v = ring_vs(p); let n = r.len() as int;
    no_dups(p);
    assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] v[j] != #[trigger] v[i] by { assert(r[i] != r[j]); let (a, b) = (r[i].0 as int, r[j].0 as int); reveal(alld); if a < b { assert(pxy(p.points@[a]) != pxy(p.points@[b])); } else { assert(pxy(p.points@[b]) != pxy(p.points@[a])); } }
    assert forall|i: int, j: int| 0 <= j < i < n implies !meets(#[trigger] vseg_at(v, i), #[trigger] vseg_at(v, j)) by {
        let (e, f) = (redge(r, i), redge(r, j));
        assert(is_edge(r, e) && is_edge(r, f));
        if e == f { inj(r, i, j); }
        ecmp_total(e, f); tangle_sym(u, e, f);
        assert(!due(r, u, e, f) && !due(r, u, f, e)) by { let _ = (held(s, e, f), held(s, f, e)); }
        off(r, u, v, i, j);
    }
}
// three consecutive points on one line everywhere: all points are on one line
proof fn along(d: P2, u: P2, w: P2)
    requires d != (0real, 0real), u != (0real, 0real), cross2(u, d) == 0real, cross2(u, w) == 0real
    ensures cross2(w, d) == 0real
{
    if cross2(w, d) != 0real {
        cross2_anti(u, d); cross2_anti(u, w); cross2_anti(w, d);
        two_lines(w, d, u);
    }
}
pub proof fn chain_line(v: Seq<P2>)
    requires v.len() >= 3, no_dup(v), forall|k: int| 1 <= k < v.len() - 1 ==> cross3(#[trigger] v[k - 1], v[k], v[k + 1]) == 0real
    ensures on_line(v)
{
    let d = psub(v[1], v[0]); let n = v.len() as int;
    assert(v[0] != v[1]);
    assert forall|k: int| 0 <= k < n implies cross2(psub(#[trigger] v[k], v[0]), d) == 0real by { line_upto(v, k); }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n implies cross3(#[trigger] v[i], #[trigger] v[j], #[trigger] v[k]) == 0real by {
        let (x, y) = (psub(v[j], v[i]), psub(v[k], v[i]));
        cross2_lin(psub(v[j], v[0]), psub(v[i], v[0]), d); cross2_lin(psub(v[k], v[0]), psub(v[i], v[0]), d);
        assert(psub(psub(v[j], v[0]), psub(v[i], v[0])) == x && psub(psub(v[k], v[0]), psub(v[i], v[0])) == y);
        if cross2(x, y) != 0real { two_lines(x, y, d); }
    }
}
proof fn cross2_lin(a: P2, b: P2, d: P2) ensures cross2(psub(a, b), d) == cross2(a, d) - cross2(b, d) { rd(d.1, a.0, b.0); rd(d.0, a.1, b.1); rmc(d.1, a.0); rmc(d.1, b.0); rmc(d.0, a.1); rmc(d.0, b.1); rmc(d.1, a.0 - b.0); rmc(d.0, a.1 - b.1); }
proof fn line_upto(v: Seq<P2>, k: int)
    requires v.len() >= 3, no_dup(v), 0 <= k < v.len(), forall|k: int| 1 <= k < v.len() - 1 ==> cross3(#[trigger] v[k - 1], v[k], v[k + 1]) == 0real
    ensures cross2(psub(v[k], v[0]), psub(v[1], v[0])) == 0real
    decreases k
{
    let d = psub(v[1], v[0]);
    assert(v[0] != v[1]);
    if k == 0 { rmul_sign(0real, d.1); rmul_sign(0real, d.0); }
    else if k == 1 { rmc(d.0, d.1); }
    else {
        line_upto(v, k - 1); line_upto(v, k - 2);
        let u = psub(v[k - 1], v[k - 2]); let w = psub(v[k], v[k - 2]);
        assert(v[k - 2] != v[k - 1]);
        cross2_lin(psub(v[k - 1], v[0]), psub(v[k - 2], v[0]), d);
        assert(psub(psub(v[k - 1], v[0]), psub(v[k - 2], v[0])) == u);
        let m = k - 1;
        assert(cross3(v[m - 1], v[m], v[m + 1]) == 0real);
        along(d, u, w);
        cross2_lin(psub(v[k], v[0]), psub(v[k - 2], v[0]), d);
        assert(psub(psub(v[k], v[0]), psub(v[k - 2], v[0])) == w);
    }
}
pub proof fn vs_dups<T: PolygonScalar>(p: Polygon<T>)
    requires ring1(p)
    ensures no_dup(ring_vs(p))
{
    let r = p.rings@[0]@; let v = ring_vs(p);
    no_dups(p);
    assert forall|i: int, j: int| 0 <= j < i < r.len() implies #[trigger] v[j] != #[trigger] v[i] by { assert(r[i] != r[j]); let (a, b) = (r[i].0 as int, r[j].0 as int); reveal(alld); if a < b { assert(pxy(p.points@[a]) != pxy(p.points@[b])); } else { assert(pxy(p.points@[b]) != pxy(p.points@[a])); } }
}
pub proof fn flat_ring<T: PolygonScalar>(p: Polygon<T>)
    requires ring1(p)
    ensures all_flat(p) == on_line(vs(p.points@))
{
    let r = p.rings@[0]@; let v = ring_vs(p); let u = vs(p.points@); let n = r.len() as int;
    no_dups(p); vs_dups(p);
    if all_flat(p) {
        assert forall|k: int| 1 <= k < n - 1 implies cross3(#[trigger] v[k - 1], v[k], v[k + 1]) == 0real by { assert(vturn(p, 0, k) == Orientation::CoLinear); }
        chain_line(v);
        assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n implies cross3(#[trigger] u[i], #[trigger] u[j], #[trigger] u[k]) == 0real by {
            let (a, b, c) = (p.position_index@[i].0 as int, p.position_index@[j].0 as int, p.position_index@[k].0 as int);
            assert(p.ring_index@[i].0 == 0 && p.ring_index@[j].0 == 0 && p.ring_index@[k].0 == 0);
            assert(v[a] == u[i] && v[b] == u[j] && v[c] == u[k]);
        }
    }
    if on_line(u) {
        assert forall|k: int| 0 <= k < n implies #[trigger] vturn(p, 0, k) == Orientation::CoLinear by {
            let (a, b, c) = (r[wrapi(k - 1, n)].0 as int, r[k].0 as int, r[wrapi(k + 1, n)].0 as int);
            assert(cross3(u[a], u[b], u[c]) == 0real);
        }
    }
}
} }
pub mod twos { use super::*; verus! {
pub proof fn strict()
    ensures forall|s: Seg, p: P2| #[trigger] seg_has(s, p) && !s.loi && !s.hii ==> p != s.lo && p != s.hi
{ assert forall|s: Seg, p: P2| #[trigger] seg_has(s, p) && !s.loi && !s.hii implies p != s.lo && p != s.hi by { let t = choose|t: real| seg_at(s, p, t); } }
pub open spec fn cov(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, i: int) -> bool { forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) ==> held(s, e, f) || later(r, i, e) }
pub open spec fn cov_in(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, i: int, j: int) -> bool { forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) ==> held(s, e, f) || later(r, i + 1, e) || (e == redge(r, i) && later(r, j, f)) }
pub open spec fn grows(s: IndexIntersectionSet, t: IndexIntersectionSet) -> bool { forall|e: IndexEdge, f: IndexEdge| held(s, e, f) ==> #[trigger] held(t, e, f) }
pub proof fn cov0(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>)
    ensures cov(s, r, u, 0)
{ assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(s, e, f) || later(r, 0, e) by { let k = choose|k: int| 0 <= k < r.len() && redge(r, k) == e; assert(later(r, 0, e)); } }
pub proof fn cov_start(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, i: int)
    requires cov(s, r, u, i), 0 <= i < r.len()
    ensures cov_in(s, r, u, i, 0)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(s, e, f) || later(r, i + 1, e) || (e == redge(r, i) && later(r, 0, f)) by {
        if !held(s, e, f) {
            let k = choose|k: int| i <= k < r.len() && #[trigger] redge(r, k) == e;
            if k > i { assert(later(r, i + 1, e)); }
            let m = choose|k: int| 0 <= k < r.len() && redge(r, k) == f; assert(later(r, 0, f));
        }
    }
}
pub proof fn cov_step(s: IndexIntersectionSet, t: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, i: int, j: int)
    requires cov_in(s, r, u, i, j), 0 <= i < r.len(), 0 <= j < r.len(), grows(s, t), due(r, u, redge(r, i), redge(r, j)) ==> held(t, redge(r, i), redge(r, j))
    ensures cov_in(t, r, u, i, j + 1)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(t, e, f) || later(r, i + 1, e) || (e == redge(r, i) && later(r, j + 1, f)) by {
        if !held(t, e, f) && !later(r, i + 1, e) {
            assert(!held(s, e, f));
            let m = choose|k: int| j <= k < r.len() && #[trigger] redge(r, k) == f;
            if m > j { assert(later(r, j + 1, f)); }
        }
    }
}
pub proof fn cov_end(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, i: int)
    requires cov_in(s, r, u, i, r.len() as int)
    ensures cov(s, r, u, i + 1)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(s, e, f) || later(r, i + 1, e) by { assert(!later(r, r.len() as int, f)); }
}
pub proof fn cov_all(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>)
    requires cov(s, r, u, r.len() as int), only_due(s, r, u), s.wf(), s.n() == r.len()
    ensures linked(s, r, u)
{ assert forall|e: IndexEdge, f: IndexEdge| #![trigger held(s, e, f)] #![trigger due(r, u, e, f)] held(s, e, f) == due(r, u, e, f) by { assert(!later(r, r.len() as int, e)); } }

pub open spec fn pend(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, ins: Seq<IndexEdge>, i: int) -> bool { forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) ==> held(s, e, f) || pending(ins, i, e) || pending(ins, i, f) }
pub open spec fn pend_in(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, ins: Seq<IndexEdge>, i: int, j: int) -> bool {
    forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) ==> held(s, e, f) || pending(ins, i + 1, e) || pending(ins, i + 1, f) || (e == ins[i] && later(r, j, f)) || (f == ins[i] && later(r, j, e))
}
pub proof fn pend_start(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, ins: Seq<IndexEdge>, i: int)
    requires pend(s, r, u, ins, i), 0 <= i < ins.len()
    ensures pend_in(s, r, u, ins, i, 0)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(s, e, f) || pending(ins, i + 1, e) || pending(ins, i + 1, f) || (e == ins[i] && later(r, 0, f)) || (f == ins[i] && later(r, 0, e)) by {
        let a = choose|k: int| 0 <= k < r.len() && redge(r, k) == e; let b = choose|k: int| 0 <= k < r.len() && redge(r, k) == f;
        assert(later(r, 0, e) && later(r, 0, f));
        if pending(ins, i, e) { let k = choose|k: int| i <= k < ins.len() && #[trigger] ins[k] == e; if k > i { assert(pending(ins, i + 1, e)); } }
        if pending(ins, i, f) { let k = choose|k: int| i <= k < ins.len() && #[trigger] ins[k] == f; if k > i { assert(pending(ins, i + 1, f)); } }
    }
}
pub proof fn pend_step(s: IndexIntersectionSet, t: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, ins: Seq<IndexEdge>, i: int, j: int)
    requires
        pend_in(s, r, u, ins, i, j), 0 <= i < ins.len(), 0 <= j < r.len(), grows(s, t),
        due(r, u, redge(r, j), ins[i]) ==> held(t, redge(r, j), ins[i]), due(r, u, ins[i], redge(r, j)) ==> held(t, ins[i], redge(r, j)),
    ensures pend_in(t, r, u, ins, i, j + 1)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(t, e, f) || pending(ins, i + 1, e) || pending(ins, i + 1, f) || (e == ins[i] && later(r, j + 1, f)) || (f == ins[i] && later(r, j + 1, e)) by {
        if !held(t, e, f) {
            assert(!held(s, e, f));
            if e == ins[i] && later(r, j, f) { let m = choose|k: int| j <= k < r.len() && #[trigger] redge(r, k) == f; if m > j { assert(later(r, j + 1, f)); } }
            if f == ins[i] && later(r, j, e) { let m = choose|k: int| j <= k < r.len() && #[trigger] redge(r, k) == e; if m > j { assert(later(r, j + 1, e)); } }
        }
    }
}
pub proof fn pend_end(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, ins: Seq<IndexEdge>, i: int)
    requires pend_in(s, r, u, ins, i, r.len() as int)
    ensures pend(s, r, u, ins, i + 1)
{
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(r, u, e, f) implies held(s, e, f) || pending(ins, i + 1, e) || pending(ins, i + 1, f) by { assert(!later(r, r.len() as int, f) && !later(r, r.len() as int, e)); }
}
pub proof fn pend_all(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, ins: Seq<IndexEdge>)
    requires pend(s, r, u, ins, ins.len() as int), only_due(s, r, u), s.wf(), s.n() == r.len()
    ensures linked(s, r, u)
{ assert forall|e: IndexEdge, f: IndexEdge| #![trigger held(s, e, f)] #![trigger due(r, u, e, f)] held(s, e, f) == due(r, u, e, f) by { assert(!pending(ins, ins.len() as int, e) && !pending(ins, ins.len() as int, f)); } }
// the set once the intersections of the removed edges are out
pub proof fn rebuilt(s0: IndexIntersectionSet, s: IndexIntersectionSet, r: Seq<PointId>, b: Seq<PointId>, u: Seq<P2>, d1: IndexEdge, d2: IndexEdge, d3: IndexEdge, ins: Seq<IndexEdge>)
    requires
        linked(s0, r, u), forall|e: IndexEdge, f: IndexEdge| #[trigger] held(s, e, f) == (held(s0, e, f) && e != d1 && e != d2 && e != d3 && f != d1 && f != d2 && f != d3),
        ins.len() >= 2, rewired(r, b, d1, d2, d3, ins[0], ins[1], ins[ins.len() - 1]),
    ensures only_due(s, b, u), pend(s, b, u, ins, 0), ins.len() <= 3 ==> forall|k: int| 0 <= k < ins.len() ==> is_edge(b, #[trigger] ins[k])
{
    hide(tangle); hide(ecmp); hide(held);
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] held(s, e, f) implies due(b, u, e, f) by { let _ = held(s0, e, f); assert(is_edge(b, e) && is_edge(b, f)); }
    assert forall|e: IndexEdge, f: IndexEdge| #[trigger] due(b, u, e, f) implies held(s, e, f) || pending(ins, 0, e) || pending(ins, 0, f) by {
        let l = ins.len() - 1;
        if e == ins[0] || e == ins[1] || e == ins[l] { assert(pending(ins, 0, e)); }
        else if f == ins[0] || f == ins[1] || f == ins[l] { assert(pending(ins, 0, f)); }
        else { assert(is_edge(b, e) && is_edge(b, f)); assert(due(r, u, e, f)); let _ = (held(s, e, f), held(s0, e, f)); }
    }
    assert(is_edge(b, ins[0]) && is_edge(b, ins[1]) && is_edge(b, ins[ins.len() - 1]));
}
// one more pair
pub proof fn one_more(s: IndexIntersectionSet, t: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, x: IndexIntersection)
    requires only_due(s, r, u), is_edge(r, x.min), is_edge(r, x.max), ecmp(x.min, x.max) == Ordering::Less, tangle(u, x.min, x.max), forall|e: IndexEdge, f: IndexEdge| #[trigger] held(t, e, f) == (held(s, e, f) || (e == x.min && f == x.max))
    ensures only_due(t, r, u), grows(s, t), held(t, x.min, x.max)
{ }
pub open spec fn plus(s: IndexIntersectionSet, t: IndexIntersectionSet, a: IndexEdge, b: IndexEdge) -> bool { forall|e: IndexEdge, f: IndexEdge| #[trigger] held(t, e, f) == (held(s, e, f) || (e == a && f == b)) }
pub proof fn next(s: IndexIntersectionSet, t: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, a: IndexEdge, b: IndexEdge)
    requires
        only_due(s, r, u), is_edge(r, a), is_edge(r, b),
        t == s && (a == b || !tangle(u, a, b)) || a != b && tangle(u, a, b) && (ecmp(a, b) == Ordering::Less && plus(s, t, a, b) || ecmp(b, a) == Ordering::Less && plus(s, t, b, a)),
    ensures only_due(t, r, u), grows(s, t), due(r, u, a, b) ==> held(t, a, b), due(r, u, b, a) ==> held(t, b, a)
{
    hide(tangle);
    twop::tangle_sym(u, a, b); twop::ecmp_total(a, b); twop::ecmp_total(a, a);
    if t != s { let x = if ecmp(a, b) == Ordering::Less { IndexIntersection { min: a, max: b } } else { IndexIntersection { min: b, max: a } }; one_more(s, t, r, u, x); }
}
pub proof fn same_ring1<T: PolygonScalar>(a: Polygon<T>, b: Polygon<T>)
    requires ring1(a), ix_maps(b), b.points == a.points, same_rings(a, b, 0)
    ensures ring1(b)
{ assert forall|r: int| 0 <= r < b.rings@.len() implies #[trigger] b.rings@[r]@.len() >= 1 by { let _ = a.rings@[r]; } }
pub proof fn turns<'a, T: PolygonScalar>(p: &'a Polygon<T>)
    ensures forall|c: Cursor<'a, T>| #![trigger c.step(-1)] c.poly() == p && okpos(*p, c.pos()) && c.pos().ring_id.0 == 0 ==> orient3(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt())) == vturn(*p, 0, c.pos().position_id.0 as int)
{ }
// a simple ring is not flat at its lowest vertex, and may be read backwards
pub proof fn settled<T: PolygonScalar>(p: Polygon<T>)
    requires ring1(p), simple_ring(ring_vs(p))
    ensures
        !ring_turn(p, Orientation::CoLinear),
        forall|q: Polygon<T>| #[trigger] same_rings(p, q, 0) && wf(q) && q.points == p.points && q.rings@[0]@ == p.rings@[0]@.reverse() ==> ring1(q) && simple_ring(ring_vs(q)) && (ring_turn(p, Orientation::ClockWise) ==> ring_turn(q, Orientation::CounterClockWise)),
{
    hide(apart);
    let v = ring_vs(p); let n = v.len() as int;
    newp::ring_facts(p, v);
    if ring_turn(p, Orientation::CoLinear) { let k = choose|k: int| #[trigger] newp::vlow(v, k) && Orientation::CoLinear == newp::vturn_at(v, k); newp::flat_low(v, k); }
    assert forall|q: Polygon<T>| #[trigger] same_rings(p, q, 0) && wf(q) && q.points == p.points && q.rings@[0]@ == p.rings@[0]@.reverse() implies ring1(q) && simple_ring(ring_vs(q)) && (ring_turn(p, Orientation::ClockWise) ==> ring_turn(q, Orientation::CounterClockWise)) by {
        let w = ring_vs(q);
        assert(w =~= newp::rv(v)); assert(newp::rv(w) =~= v);
        newp::backwards(v);
        if ring_turn(p, Orientation::ClockWise) {
            let k = choose|k: int| #[trigger] newp::vlow(v, k) && Orientation::ClockWise == newp::vturn_at(v, k);
            newp::turn_back(w, k);
            let m = n - 1 - k;
            assert(lowest(q, m)) by { assert forall|j: int| 0 <= j < q.rings@[0]@.len() implies plex(pxy(at(q, 0, m)), pxy(#[trigger] at(q, 0, j))) != Ordering::Greater by { assert(plex(w[m], w[j]) != Ordering::Greater); } }
            assert(vturn(q, 0, m) == newp::vturn_at(w, m));
        }
    }
}
// the two cursors of an edge that is not parallel to the other edge
pub proof fn apart_ends(r: Seq<PointId>, u: Seq<P2>, i: int, j: int)
    requires nodups(r), r.len() >= 3, 0 <= i < r.len(), 0 <= j < r.len(), i != j, tangle(u, redge(r, i), redge(r, j)),
        ({ let n = r.len() as int; let (a, b, c, d) = (u[r[i].0 as int], u[r[wrapi(i + 1, n)].0 as int], u[r[j].0 as int], u[r[wrapi(j + 1, n)].0 as int]);
           !(orient3(a, b, c) == Orientation::CoLinear && orient3(a, b, d) == Orientation::CoLinear) })
    ensures j != wrapi(i + 1, r.len() as int)
{
    hide(meets); reveal(nodups);
    let n = r.len() as int; let (i1, j1) = (wrapi(i + 1, n), wrapi(j + 1, n));
    if j == i1 {
        assert(r[i] != r[j] && r[j] != r[j1]);
        let (a, b, c) = (u[r[i].0 as int], u[r[j].0 as int], u[r[j1].0 as int]);
        let (e, f) = (redge(r, i), redge(r, j));
        twop::shared_line(a, b, c, iseg(u, e, f), iseg(u, f, e));
        rmc(b.0 - a.0, b.1 - a.1);
        assert(cross3(a, b, b) == 0real);
    }
}
pub proof fn all_valid(r: Seq<PointId>)
    requires nodups(r), r.len() >= 2, forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0 < r.len()
    ensures forall|k: int| 0 <= k < r.len() ==> evalid(#[trigger] redge(r, k), r.len() as int)
{ reveal(nodups); assert forall|k: int| 0 <= k < r.len() implies evalid(#[trigger] redge(r, k), r.len() as int) by { twop::edge_valid(r, r.len() as int, redge(r, k)); } }
pub proof fn maps<T: PolygonScalar>(p: Polygon<T>) requires wf(p) ensures ix_maps(p) { }
pub proof fn in_set(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, e: IndexEdge, f: IndexEdge)
    requires linked(s, r, u)
    ensures s.wf(), s.n() == r.len(), held(s, e, f) ==> is_edge(r, e) && is_edge(r, f) && tangle(u, e, f) && ecmp(e, f) == Ordering::Less
{ let _ = due(r, u, e, f); }
pub proof fn is_redge(r: Seq<PointId>, k: int) requires 0 <= k < r.len() ensures is_edge(r, redge(r, k)) { }
pub proof fn linked_wf(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>) requires linked(s, r, u) ensures s.wf() { }
pub proof fn none_due(s: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>)
    requires s.d() == Set::<usize>::empty()
    ensures only_due(s, r, u)
{ }
pub proof fn next_less(s: IndexIntersectionSet, t: IndexIntersectionSet, r: Seq<PointId>, u: Seq<P2>, a: IndexEdge, b: IndexEdge)
    requires
        only_due(s, r, u), is_edge(r, a), is_edge(r, b),
        t == s && !(ecmp(a, b) == Ordering::Less && tangle(u, a, b)) || ecmp(a, b) == Ordering::Less && tangle(u, a, b) && plus(s, t, a, b),
    ensures only_due(t, r, u), grows(s, t), due(r, u, a, b) ==> held(t, a, b)
{
    hide(tangle);
    if t != s { one_more(s, t, r, u, IndexIntersection { min: a, max: b }); }
}
// where an edge of the ring is
pub proof fn where_is(r: Seq<PointId>, e: IndexEdge)
    requires is_edge(r, e), r.len() >= 3
    ensures exists|i: int| 0 <= i < r.len() && (#[trigger] ring_side(r, i) == (e.min, e.max) || ring_side(r, i) == (e.max, e.min))
{ let k = choose|k: int| 0 <= k < r.len() && redge(r, k) == e; let x = ring_side(r, k); }
// the edge that starts at the slot i of the point it starts from
pub proof fn at_slot(r: Seq<PointId>, e: IndexEdge, i: int, a: PointId, b: PointId)
    requires nodups(r), r.len() >= 3, 0 <= i < r.len(), r[i] == a, e.min.0 < e.max.0, (a == e.min && b == e.max) || (a == e.max && b == e.min),
        exists|k: int| 0 <= k < r.len() && #[trigger] ring_side(r, k) == (a, b)
    ensures redge(r, i) == e
{ reveal(nodups); let k = choose|k: int| 0 <= k < r.len() && #[trigger] ring_side(r, k) == (a, b); assert(k == i); }
pub proof fn swap_edges(r: Seq<PointId>, b: Seq<PointId>, i: int, j: int, p1: Position, p2: Position)
    requires
        nodups(r), r.len() >= 3, 0 <= i < r.len(), 0 <= j < r.len(), i != j, j != wrapi(i + 1, r.len() as int), p1.size == r.len(), p2.position_id.0 == j, p1.position_id.0 == wrapi(i + 1, r.len() as int),
        rev_upto(r, b, p1.position_id.0 as int, span(p1, p2), span(p1, p2))
    ensures rewired(r, b, redge(r, i), redge(r, j), redge(r, j), medge(r[i], r[j]), medge(r[wrapi(i + 1, r.len() as int)], r[wrapi(j + 1, r.len() as int)]), medge(r[wrapi(i + 1, r.len() as int)], r[wrapi(j + 1, r.len() as int)]))
{ reveal(nodups);
    let n = r.len() as int; let f = wrapi(i + 1, n); let len = span(p1, p2);
    assert(2 <= len < n);
    twop::uncrossed(r, b, f, len);
    assert(rix(r, f, len - 1) == r[j] && rix(r, f, n - 1) == r[i] && rix(r, f, 0) == r[f] && rix(r, f, len) == r[wrapi(j + 1, n)]);
    assert(pedge(r, f, len - 1) == redge(r, j)); assert(pedge(r, f, n - 1) == redge(r, i));
}
pub proof fn move_point(r: Seq<PointId>, b: Seq<PointId>, e: int, k: int, p1: Position, p2: Position)
    requires
        nodups(r), r.len() >= 3, 0 <= e < r.len(), 0 <= k < r.len(), e != k, k != wrapi(e + 1, r.len() as int), p1.size == r.len(), p2.position_id.0 == k, p1.position_id.0 == e,
        joined(r, b, e, span(p1, p2) - 1, span(p1, p2) - 2)
    ensures rewired(r, b, redge(r, wrapi(k - 1, r.len() as int)), redge(r, k), redge(r, e), medge(r[wrapi(k - 1, r.len() as int)], r[wrapi(k + 1, r.len() as int)]), medge(r[e], r[k]), medge(r[k], r[wrapi(e + 1, r.len() as int)]))
{ reveal(nodups);
    let n = r.len() as int; let len = span(p1, p2) - 1;
    assert(2 <= len < n);
    twop::moved(r, b, e, len);
    assert(rix(r, e, len - 1) == r[wrapi(k - 1, n)] && rix(r, e, len) == r[k] && rix(r, e, 0) == r[e] && rix(r, e, 1) == r[wrapi(e + 1, n)] && rix(r, e, wrapi(len + 1, n)) == r[wrapi(k + 1, n)]);
    assert(pedge(r, e, len - 1) == redge(r, wrapi(k - 1, n))); assert(pedge(r, e, len) == redge(r, k)); assert(pedge(r, e, 0) == redge(r, e));
}
} }
verus! {
pub open spec fn on0<'a, T>(p: &Polygon<T>, c: Cursor<'a, T>) -> bool { *c.poly() == *p && c.pos().ring_id.0 == 0 }
// a value that is taken only if there is one (Option::expect panics otherwise)
pub trait VExpect<B>: Sized { spec fn val(self) -> Option<B>; fn vexpect(self, msg: &str) -> (r: B) ensures self.val() == Some(r); }
impl<B> VExpect<B> for Option<B> {
    open spec fn val(self) -> Option<B> { self }
    #[verifier::external_body] fn vexpect(self, msg: &str) -> (r: B) { unimplemented!() }
}
impl<'a, T: TotalOrd, const N: usize> vstd::std_specs::convert::FromSpecImpl<std::ops::Range<&'a Point<T, N>>> for LineSegmentView<'a, T, N> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: std::ops::Range<&'a Point<T, N>>) -> Self { arbitrary() }
}
impl<'a, T: TotalOrd, const N: usize> From<std::ops::Range<&'a Point<T, N>>> for LineSegmentView<'a, T, N> {
//@ fn src/data/line_segment.rs | From<Range<&'a Point<T, N>>> for LineSegmentView<'a, T, N> | from
//@ rewrite? Range< =>> std::ops::Range<
//@ ret r
//@ spec
    ensures vord(r)
//@ end
}
//@ fn src/algorithms/polygonization/two_opt.rs | - | endpoint
//@ ret r
//@ spec
    ensures ein(r) == t, eincl(r) == (a != b && a != c)
//@ end
//@ fn src/algorithms/polygonization/two_opt.rs | - | intersects
//@ ret r
//@ spec
    requires evalid(a, poly.points@.len() as int), evalid(b, poly.points@.len() as int), a != b
    ensures match r {
        None => !tangle(vs(poly.points@), a, b),
        Some(x) => tangle(vs(poly.points@), a, b) && ecmp(x.min, x.max) == Ordering::Less && (x.min == a && x.max == b || x.min == b && x.max == a),
    }
//@ top
    hide(seg_has);
    proof { twop::ecmp_total(a, b); twop::read_as(vs(poly.points@), a, b); }
//@ end
//@ fn src/algorithms/polygonization/two_opt.rs | - | parallel_edges
//@ ret r
//@ spec
    ensures r == (orient3(pxy(a.pt()), pxy(a.step(1).pt()), pxy(b.pt())) == Orientation::CoLinear && orient3(pxy(a.pt()), pxy(a.step(1).pt()), pxy(b.step(1).pt())) == Orientation::CoLinear)
//@ end
//@ fn src/algorithms/polygonization/two_opt.rs | - | linear_extremes
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
    ensures r.0.poly() == at.poly(), r.1.poly() == at.poly(), r.0.pos().ring_id == at.pos().ring_id, r.1.pos().ring_id == at.pos().ring_id
//@ loop 0
    invariant at_min.poly() == at.poly(), at_min.pos().ring_id == at.pos().ring_id
//@ loop 1
    invariant at_max.poly() == at.poly(), at_max.pos().ring_id == at.pos().ring_id
//@ end
//@ fn src/algorithms/polygonization/two_opt.rs | - | edges
//@ ret r
//@ rewrite? .map( =>> .vmap(
//@ spec
    requires wf(*poly)
    ensures r.obeys_prophetic_iter_laws(), r.remaining().len() <= poly.rings@[0]@.len(), r.will_return_none() ==> r.remaining().len() == poly.rings@[0]@.len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == redge(poly.rings@[0]@, i)
//@ closure 0
    -> (e: IndexEdge)
        requires cursor.poly() == poly, cursor.pos().ring_id.0 == 0
        ensures e == redge(poly.rings@[0]@, cursor.pos().position_id.0 as int)
//@ end
pub open spec fn mergeable<'a, T: PolygonScalar>(p: &Polygon<T>, k: Cursor<'a, T>, e: Cursor<'a, T>) -> bool { on0(p, k) && on0(p, e) && pxy(k.pt()) != pxy(e.pt()) && pxy(k.pt()) != pxy(e.step(1).pt()) }
pub open spec fn picked<'a, T: PolygonScalar>(p: &Polygon<T>, m: Option<(Cursor<'a, T>, Cursor<'a, T>)>) -> bool { match m { Some((k, e)) => mergeable(p, k, e), None => true } }
// the edge that starts at a cursor
pub open spec fn cedge<'a, T: PolygonScalar>(c: Cursor<'a, T>) -> IndexEdge { redge(c.poly().rings@[0]@, c.pos().position_id.0 as int) }
//@ fn src/algorithms/polygonization/two_opt.rs | - | untangle
//@ attr #[verifier::rlimit(60)] #[verifier::exec_allows_no_decreases_clause]
//@ rewrite? .expect( =>> .vexpect(
//@ spec
    requires ring1(*old(poly)), linked(*old(set), old(poly).rings@[0]@, vs(old(poly).points@)), held(*old(set), isect.min, isect.max)
    ensures ring1(*final(poly)), final(poly).points == old(poly).points, linked(*final(set), final(poly).rings@[0]@, vs(final(poly).points@))
//@ top
    
    let ghost o = *poly; let ghost r0 = o.rings@[0]@; let ghost u = vs(o.points@); let ghost n0 = r0.len() as int; let ghost set0 = *set;
    proof {
        twos::in_set(set0, r0, u, isect.min, isect.max);
        twop::no_dups(o); twop::edge_valid(r0, n0, isect.min); twop::edge_valid(r0, n0, isect.max);
        twos::maps(o); twos::all_valid(r0); twos::where_is(r0, isect.min); twos::where_is(r0, isect.max);
        twop::ecmp_total(isect.min, isect.max); twop::ecmp_total(isect.min, isect.min);
    }
//@ after_stmt let db =
    let ghost ia = da.pos().position_id.0 as int; let ghost ib = db.pos().position_id.0 as int;
    proof {
        assert(on0(&o, da) && on0(&o, db));
        twos::at_slot(r0, isect.min, ia, r0[ia], if r0[ia] == isect.min.min { isect.min.max } else { isect.min.min });
        twos::at_slot(r0, isect.max, ib, r0[ib], if r0[ib] == isect.max.min { isect.max.max } else { isect.max.min });
    }
//@ loop 0 iter it
    invariant
        forall|i: int| 0 <= i < it.seq().len() ==> on0(&o, #[trigger] it.seq()[i]), forall|i: int| 0 <= i < kinks@.len() ==> on0(&o, #[trigger] kinks@[i])
//@ loop 1 iter it
    invariant
        forall|i: int| 0 <= i < it.seq().len() ==> on0(&o, #[trigger] it.seq()[i]),
        forall|i: int| 0 <= i < kinks@.len() ==> on0(&o, #[trigger] kinks@[i]),
        picked(&o, mergable),
//@ loop 2 iter it
    invariant
        on0(&o, edge), forall|i: int| 0 <= i < it.seq().len() ==> on0(&o, *#[trigger] it.seq()[i]),
        picked(&o, mergable),
        vord(segment), vseg(segment) == (Seg { lo: pxy(edge.pt()), hi: pxy(edge.step(1).pt()), loi: false, hii: false }) || vseg(segment) == (Seg { hi: pxy(edge.pt()), lo: pxy(edge.step(1).pt()), loi: false, hii: false }),
//@ loop_before 2
    #[verifier::loop_isolation(false)]
//@ loop_top 2
    proof { twos::strict(); }
//@ after_stmt let del_edge_3 =
    let ghost ik = kink.pos().position_id.0 as int; let ghost ie = edge.pos().position_id.0 as int;
    proof {
        assert(mergeable(&o, kink, edge));
        assert(ik != ie && ik != wrapi(ie + 1, n0));
        assert(del_edge_1 == redge(r0, wrapi(ik - 1, n0)) && del_edge_2 == redge(r0, ik) && del_edge_3 == redge(r0, ie));
    }
//@ after_stmt poly.vertices_join(
    proof {
        let b = poly.rings@[0]@;
        twos::same_ring1(o, *poly); twos::move_point(r0, b, ie, ik, p1, p2);
        assert(inserted_edges@ =~= seq![medge(r0[wrapi(ik - 1, n0)], r0[wrapi(ik + 1, n0)]), medge(r0[ie], r0[ik]), medge(r0[ik], r0[wrapi(ie + 1, n0)])]);
        twos::rebuilt(set0, *set, r0, b, u, redge(r0, wrapi(ik - 1, n0)), redge(r0, ik), redge(r0, ie), inserted_edges@);
    }
//@ before poly.vertices_reverse(
    proof { twos::apart_ends(r0, u, ia, ib); }
//@ after_stmt poly.vertices_reverse(
    proof {
        let b = poly.rings@[0]@;
        twos::same_ring1(o, *poly); twos::swap_edges(r0, b, ia, ib, p1, p2);
        assert(inserted_edges@ =~= seq![medge(r0[ia], r0[ib]), medge(r0[wrapi(ia + 1, n0)], r0[wrapi(ib + 1, n0)])]);
        twos::rebuilt(set0, *set, r0, b, u, redge(r0, ia), redge(r0, ib), redge(r0, ib), inserted_edges@);
    }
//@ loop 3 iter it
    invariant
        ring1(*poly), poly.points == o.points, u == vs(o.points@), set.wf(), set.n() == poly.rings@[0]@.len(), only_due(*set, poly.rings@[0]@, u),
        it.seq() == inserted_edges@.as_ref(), forall|i: int| 0 <= i < inserted_edges@.len() ==> is_edge(poly.rings@[0]@, #[trigger] inserted_edges@[i]),
        twos::pend(*set, poly.rings@[0]@, u, inserted_edges@, it.index@ as int),
//@ loop_top 3
    let ghost i3 = it.index@ as int; let ghost r1 = poly.rings@[0]@; let ghost ins = inserted_edges@;
    proof { twos::pend_start(*set, r1, u, ins, i3); }
//@ loop_bottom 3
    proof { twos::pend_end(*set, r1, u, ins, i3); }
//@ loop 4 iter it4
    invariant
        it4.iter.obeys_prophetic_iter_laws(), ring1(*poly), poly.points == o.points, u == vs(o.points@), r1 == poly.rings@[0]@, set.wf(), set.n() == r1.len(), only_due(*set, r1, u),
        0 <= i3 < ins.len(), edge == ins[i3], is_edge(r1, edge), it4.seq().len() <= r1.len(), forall|i: int| 0 <= i < it4.seq().len() ==> #[trigger] it4.seq()[i] == redge(r1, i),
        twos::pend_in(*set, r1, u, ins, i3, it4.index@ as int),
//@ loop_top 4
    let ghost s4 = *set; let ghost j4 = it4.index@ as int;
    proof {
        assume(set.a().len() < usize::MAX);
        assert(e1 == redge(r1, j4)); twos::is_redge(r1, j4);
        twop::no_dups(*poly); twop::edge_valid(r1, r1.len() as int, e1); twop::edge_valid(r1, r1.len() as int, edge);
        twop::tangle_sym(u, e1, edge);
    }
//@ loop_bottom 4
    proof {
        twos::next(s4, *set, r1, u, e1, edge);
        twos::pend_step(s4, *set, r1, u, ins, i3, j4);
    }
//@ bottom
    proof { twos::pend_all(*set, poly.rings@[0]@, u, inserted_edges@); }
//@ end
//@ fn src/algorithms/polygonization/two_opt.rs | - | resolve_self_intersections
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ rewrite + ?Sized =>>
//@ ret r
//@ spec
    requires ring1(*old(poly)), old(poly).points@.len() * (old(poly).points@.len() - 1) <= usize::MAX
    ensures
        final(poly).points == old(poly).points,
        match r {
            Ok(_) => ring1(*final(poly)) && simple_ring(ring_vs(*final(poly))) && ring_turn(*final(poly), Orientation::CounterClockWise) && !on_line(vs(old(poly).points@)),
            Err(e) => e == Error::InsufficientVertices && on_line(vs(old(poly).points@)),
        }
//@ top
    let ghost o = *poly; let ghost r0 = o.rings@[0]@; let ghost u = vs(o.points@);
    proof { twos::turns(&o); twop::flat_ring(o); }
//@ closure 0
    -> (b: bool) ensures b == (orient3(pxy(pt.step(-1).pt()), pxy(pt.pt()), pxy(pt.step(1).pt())) == Orientation::CoLinear)
//@ before let mut isects
    assert(!all_flat(o));
//@ before return Err(Error::InsufficientVertices)
    assert(all_flat(o)) by { assert forall|k: int| 0 <= k < r0.len() implies #[trigger] vturn(o, 0, k) == Orientation::CoLinear by { let _ = at(o, 0, k); } }
//@ loop_before 0
    proof { twos::cov0(isects, r0, u); twos::none_due(isects, r0, u); }
//@ loop 0 iter it
    invariant
        it.iter.obeys_prophetic_iter_laws(), ring1(*poly), *poly == o, u == vs(o.points@), r0 == poly.rings@[0]@, isects.wf(), isects.n() == r0.len(), only_due(isects, r0, u),
        it.seq().len() <= r0.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == redge(r0, i),
        twos::cov(isects, r0, u, it.index@ as int),
//@ loop_top 0
    let ghost i0 = it.index@ as int;
    proof { twos::cov_start(isects, r0, u, i0); }
//@ loop_bottom 0
    proof { twos::cov_end(isects, r0, u, i0); }
//@ loop 1 iter it1
    invariant
        it1.iter.obeys_prophetic_iter_laws(), ring1(*poly), *poly == o, u == vs(o.points@), r0 == poly.rings@[0]@, isects.wf(), isects.n() == r0.len(), only_due(isects, r0, u),
        0 <= i0 < r0.len(), e1 == redge(r0, i0), it1.seq().len() <= r0.len(), forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] it1.seq()[i] == redge(r0, i),
        twos::cov_in(isects, r0, u, i0, it1.index@ as int),
//@ loop_top 1
    let ghost s1 = isects; let ghost j1 = it1.index@ as int;
    proof {
        assume(isects.a().len() < usize::MAX);
        assert(e2 == redge(r0, j1)); assert(is_edge(r0, e1)); assert(is_edge(r0, e2));
        twop::no_dups(*poly); twop::edge_valid(r0, r0.len() as int, e1); twop::edge_valid(r0, r0.len() as int, e2);
        twop::tangle_sym(u, e1, e2); twop::ecmp_total(e1, e2); twop::ecmp_total(e1, e1);
    }
//@ loop_bottom 1
    proof {
        twos::next_less(s1, isects, r0, u, e1, e2);
        twos::cov_step(s1, isects, r0, u, i0, j1);
    }
//@ loop_before 2
    proof { twos::cov_all(isects, r0, u); }
//@ loop 2
    invariant ring1(*poly), poly.points == o.points, isects.wf(), linked(isects, poly.rings@[0]@, vs(poly.points@))
    ensures forall|e: IndexEdge, f: IndexEdge| !#[trigger] held(isects, e, f)
//@ loop_bottom 2
    proof { twos::linked_wf(isects, poly.rings@[0]@, vs(poly.points@)); }
//@ before poly.ensure_ccw
    proof { twop::done(*poly, isects); twos::settled(*poly); }
//@ end
//@ fn src/algorithms/polygonization/two_opt.rs | - | two_opt_moves
//@ rewrite + ?Sized =>>
//@ rewrite BTreeSet =>> VSet
//@ ret r
//@ spec
    requires pts@.len() * (pts@.len() - 1) <= usize::MAX
    ensures match r {
        Ok(q) => ring1(q) && q.points@ == pts@ && simple_ring(ring_vs(q)) && ring_turn(q, Orientation::CounterClockWise) && !on_line(vs(pts@)),
        Err(e) => e == Error::DuplicatePoints && !distinct(pts@) || e == Error::InsufficientVertices && distinct(pts@) && (pts@.len() < 3 || on_line(vs(pts@))),
    }
//@ top
    proof { reveal(alld); assert(pts@.as_ref().take(0) =~= Seq::empty()); assert(pts@.take(pts@.len() as int) =~= pts@); }
//@ loop_before 0
    assert(seen.seq() == pts@.as_ref().take(0)); assert(distinct(pts@.take(0)));
//@ loop 0 iter it
    invariant
        it.seq() == pts@.as_ref(),
        seen.seq() == pts@.as_ref().take(it.index@ as int),
        distinct(pts@.take(it.index@ as int)),
//@ loop_top 0
    let ghost k = it.index@ as int; let ghost was = seen.seq();
    proof { validp::grown(pts@, was, k); assert(*pt == pts@[k]); }
//@ loop_bottom 0
    assert(seen.seq() =~= pts@.as_ref().take(k + 1)); assert(pts@.take(pts@.len() as int) =~= pts@);
//@ end
} // verus!
