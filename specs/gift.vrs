// Convex hull by gift wrapping: the result is the strictly convex hull of the input.
pub mod gif { use super::*; verus! {
use crate::gra::{on_seg, seg_at, st, stk, stacked};
// going from p, nothing is before q, and nothing level with q is farther
pub open spec fn fst(p: P2, q: P2, a: P2) -> bool { cross3(p, q, a) >= 0real && (cross3(p, q, a) == 0real ==> on_seg(p, q, a)) }
pub open spec fn best(s: Seq<P2>, p: P2, q: P2, k: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < k ==> fst(p, q, s[j]) }
// v lies in the pointed half-plane given by w and u
pub open spec fn up(w: P2, u: P2, v: P2) -> bool { cross2(w, v) > 0real || (cross2(w, v) == 0real && cross2(u, v) >= 0real) }
// seen from p, all the points are in one pointed half-plane
pub open spec fn half(s: Seq<P2>, p: P2, w: P2, u: P2) -> bool { cross2(w, u) != 0real && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> up(w, u, psub(s[j], p)) }
proof fn half_at(s: Seq<P2>, p: P2, w: P2, u: P2, j: int) requires half(s, p, w, u), 0 <= j < s.len() ensures up(w, u, psub(s[j], p)), cross2(w, u) != 0real { let _ = s[j]; }
proof fn best_at(s: Seq<P2>, p: P2, q: P2, k: int, j: int) requires best(s, p, q, k), 0 <= j < k ensures fst(p, q, s[j]) { let _ = s[j]; }
// only the null vector is on both axes
pub proof fn null(w: P2, u: P2, v: P2) requires cross2(w, u) != 0real, cross2(w, v) == 0real, cross2(u, v) == 0real ensures v == (0real, 0real)
{
    let (e, f) = ((1real, 0real), (0real, 1real));
    plucker(w, u, v, e); plucker(w, u, v, f);
    rmul_sign(cross2(w, v), cross2(u, e)); rmul_sign(cross2(u, v), cross2(w, e)); rmul_sign(cross2(w, v), cross2(u, f)); rmul_sign(cross2(u, v), cross2(w, f));
    rz(cross2(w, u), cross2(v, e)); rz(cross2(w, u), cross2(v, f));
    assert(cross2(v, e) == -v.1 && cross2(v, f) == v.0) by(nonlinear_arith) requires e == (1real, 0real), f == (0real, 1real);
}
proof fn rz(a: real, b: real) requires a != 0real, a * b == 0real ensures b == 0real { rmul_sign(a, b); rmul_sign(-a, b); assert((-a) * b == -(a * b)) by(nonlinear_arith); }
// three directions of a pointed half-plane do not go round
proof fn no_cycle(w: P2, u: P2, x: P2, q: P2, a: P2)
    requires cross2(w, u) != 0real, up(w, u, x), up(w, u, q), up(w, u, a), cross2(x, q) > 0real, cross2(q, a) >= 0real, cross2(x, a) < 0real
    ensures false
{
    hide(cross2);
    plucker(w, x, q, a); plucker(u, x, q, a); plucker(w, u, x, q);
    let (wx, wq, wa, ux, uq, ua) = (cross2(w, x), cross2(w, q), cross2(w, a), cross2(u, x), cross2(u, q), cross2(u, a));
    let (xq, qa, xa, wu) = (cross2(x, q), cross2(q, a), cross2(x, a), cross2(w, u));
    rmul_sign(wq, xa); rmul_sign(wx, qa); rmul_sign(xq, wa); rmul_sign(xa, wq); rmc(wq, xa);
    assert(wq == 0real); assert(wa == 0real); assert(wx * qa == 0real);
    rmul_sign(ux, wq); 
    if wx == 0real { rmul_sign(wx, uq); rz(wu, xq); }
    else {
        rz(wx, qa);
        rmul_sign(ux, qa); rmul_sign(uq, xa); rmul_sign(xq, ua); rmc(uq, xa);
        assert(uq == 0real);
        rmul_sign(wx, uq); rz(wu, xq);
    }
}
// two level directions: the shorter is on the longer
proof fn level2(w: P2, u: P2, a: P2, b: P2) -> (m: real)
    requires cross2(w, u) != 0real, up(w, u, a), up(w, u, b), cross2(a, b) == 0real, dot2(a, a) >= dot2(b, b)
    ensures 0real <= m <= 1real, b.0 == m * a.0, b.1 == m * a.1
{
    let aa = dot2(a, a); let bb = dot2(b, b); let ab = dot2(a, b);
    assert(a.0 * a.0 >= 0real && a.1 * a.1 >= 0real && b.0 * b.0 >= 0real && b.1 * b.1 >= 0real) by(nonlinear_arith);
    if aa == 0real {
        assert(b.0 == 0real && b.1 == 0real) by(nonlinear_arith) requires b.0 * b.0 == 0real, b.1 * b.1 == 0real;
        rmul_sign(0real, a.0); rmul_sign(0real, a.1);
        0real
    } else {
        let m = ab / aa;
        assert(m * aa == ab) by(nonlinear_arith) requires aa > 0real, m == ab / aa;
        let (a0, a1, b0, b1) = (a.0, a.1, b.0, b.1);
        assert(aa * b0 == a0 * ab && aa * b1 == a1 * ab) by(nonlinear_arith) requires aa == a0 * a0 + a1 * a1, ab == a0 * b0 + a1 * b1, a0 * b1 - a1 * b0 == 0real;
        assert(b0 == m * a0 && b1 == m * a1) by(nonlinear_arith) requires aa > 0real, m * aa == ab, aa * b0 == a0 * ab, aa * b1 == a1 * ab;
        assert(m <= 1real) by(nonlinear_arith) requires aa > 0real, b0 == m * a0, b1 == m * a1, aa == a0 * a0 + a1 * a1, b0 * b0 + b1 * b1 <= aa;
        assert(cross2(w, b) == m * cross2(w, a)) by(nonlinear_arith) requires b.0 == m * a.0, b.1 == m * a.1;
        assert(cross2(u, b) == m * cross2(u, a)) by(nonlinear_arith) requires b.0 == m * a.0, b.1 == m * a.1;
        if m < 0real {
            rmul_sign(m, cross2(w, a)); rmul_sign(m, cross2(u, a));
            assert(cross2(w, a) == 0real); assert(cross2(u, a) == 0real);
            null(w, u, a);
        }
        m
    }
}
proof fn on_trans(p: P2, x: P2, q: P2, a: P2) requires on_seg(p, x, q), on_seg(p, q, a) ensures on_seg(p, x, a)
{
    let m = choose|m: real| seg_at(p, x, q, m); let k = choose|k: real| seg_at(p, q, a, k);
    let t = k * m;
    assert(0real <= t <= 1real) by(nonlinear_arith) requires 0real <= m <= 1real, 0real <= k <= 1real, t == k * m;
    assert(k * (m * (x.0 - p.0)) == t * (x.0 - p.0) && k * (m * (x.1 - p.1)) == t * (x.1 - p.1)) by(nonlinear_arith) requires t == k * m;
    assert(seg_at(p, x, a, t));
}
pub proof fn on_self(p: P2, a: P2) requires on_seg(p, p, a) ensures a == p
{ let m = choose|m: real| seg_at(p, p, a, m); rmul_sign(m, p.0 - p.0); rmul_sign(m, p.1 - p.1); }
proof fn on_near(p: P2, q: P2) ensures on_seg(p, q, p) { rmul_sign(0real, q.0 - p.0); rmul_sign(0real, q.1 - p.1); assert(seg_at(p, q, p, 0real)); }
proof fn on_far(p: P2, q: P2) ensures on_seg(p, q, q) { assert(1real * (q.0 - p.0) == q.0 - p.0 && 1real * (q.1 - p.1) == q.1 - p.1); assert(seg_at(p, q, q, 1real)); }
proof fn on_level(p: P2, q: P2, a: P2, w: P2, u: P2)
    requires cross2(w, u) != 0real, up(w, u, psub(q, p)), up(w, u, psub(a, p)), cross3(p, q, a) == 0real, xdist2(p.0, p.1, q.0, q.1) >= xdist2(p.0, p.1, a.0, a.1)
    ensures on_seg(p, q, a)
{
    let (x, y) = (psub(q, p), psub(a, p));
    assert(dot2(x, x) == xdist2(p.0, p.1, q.0, q.1)) by(nonlinear_arith) requires x == (q.0 - p.0, q.1 - p.1);
    assert(dot2(y, y) == xdist2(p.0, p.1, a.0, a.1)) by(nonlinear_arith) requires y == (a.0 - p.0, a.1 - p.1);
    let m = level2(w, u, x, y);
    assert(seg_at(p, q, a, m));
}
pub open spec fn takes(p: P2, q: P2, x: P2) -> bool { cross3(p, x, q) > 0real || (cross3(p, x, q) == 0real && xdist2(p.0, p.1, x.0, x.1) > xdist2(p.0, p.1, q.0, q.1)) }
// one candidate read
pub proof fn read(s: Seq<P2>, p: P2, w: P2, u: P2, q: int, x: int)
    requires half(s, p, w, u), 0 <= q < s.len(), 0 <= x < s.len(), best(s, p, s[q], x)
    ensures best(s, p, if takes(p, s[q], s[x]) { s[x] } else { s[q] }, x + 1)
{
    let (c, n) = (s[q], s[x]);
    half_at(s, p, w, u, q); half_at(s, p, w, u, x);
    cross3_sym(p, n, c); cross3_sym(p, n, n);
    if takes(p, c, n) {
        assert forall|j: int| #![trigger s[j]] 0 <= j < x + 1 implies fst(p, n, s[j]) by {
            let a = s[j];
            half_at(s, p, w, u, j);
            if j == x { on_far(p, n); }
            else {
                best_at(s, p, c, x, j);
                if cross3(p, n, c) > 0real {
                    let (dn, dc, da) = (psub(n, p), psub(c, p), psub(a, p));
                    if cross3(p, n, a) < 0real { no_cycle(w, u, dn, dc, da); }
                    if cross3(p, n, a) == 0real {
                        if xdist2(p.0, p.1, n.0, n.1) >= xdist2(p.0, p.1, a.0, a.1) { on_level(p, n, a, w, u); }
                        else {
                            cross3_sym(p, n, a); on_level(p, a, n, w, u);
                            gra::scale(p, a, n, c); cross3_sym(p, a, c);
                            // level with n and past c: impossible
                            assert(false);
                        }
                    }
                } else {
                    on_level(p, n, c, w, u);
                    gra::scale(p, n, c, a);
                    if c == p { cross3_sym(p, p, a); on_self(p, a); on_near(p, n); cross3_sym(p, n, a); }
                    else if cross3(p, c, a) == 0real { on_trans(p, n, c, a); back(p, n, c, a); }
                }
            }
        }
    } else {
        assert forall|j: int| #![trigger s[j]] 0 <= j < x + 1 implies fst(p, c, s[j]) by {
            if j == x { if cross3(p, n, c) == 0real { on_level(p, c, n, w, u); } } else { best_at(s, p, c, x, j); }
        }
    }
}
proof fn back(p: P2, n: P2, c: P2, a: P2) requires on_seg(p, n, a) ensures cross3(p, n, a) == 0real { gra::scale(p, n, a, n); }
// the wrapping so far
pub open spec fn within(s: Seq<P2>, ix: Seq<int>) -> bool { forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < s.len() }
pub open spec fn apart(s: Seq<P2>, ix: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] st(s, ix, i) != #[trigger] st(s, ix, j) }
pub open spec fn tight(s: Seq<P2>, ix: Seq<int>) -> bool { forall|i: int| #![trigger st(s, ix, i)] 0 <= i < ix.len() - 1 ==> best(s, st(s, ix, i), st(s, ix, i + 1), s.len() as int) }
pub open spec fn lowest(s: Seq<P2>, o: P2) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> yxcmp(o, s[k]) != Ordering::Greater }
pub open spec fn chain(s: Seq<P2>, ix: Seq<int>) -> bool { ix.len() >= 1 && within(s, ix) && apart(s, ix) && tight(s, ix) && stacked(s, ix) && lowest(s, st(s, ix, 0)) }
pub open spec fn last(s: Seq<P2>, ix: Seq<int>) -> P2 { st(s, ix, ix.len() - 1) }
proof fn tig(s: Seq<P2>, ix: Seq<int>, i: int, j: int) requires tight(s, ix), 0 <= i < ix.len() - 1, 0 <= j < s.len() ensures fst(st(s, ix, i), st(s, ix, i + 1), s[j])
{ let _ = st(s, ix, i); best_at(s, st(s, ix, i), st(s, ix, i + 1), s.len() as int, j); }
proof fn apr(s: Seq<P2>, ix: Seq<int>, i: int, j: int) requires apart(s, ix), 0 <= i < ix.len(), 0 <= j < ix.len(), i != j ensures st(s, ix, i) != st(s, ix, j)
{ if i < j { assert(st(s, ix, i) != st(s, ix, j)); } else { assert(st(s, ix, j) != st(s, ix, i)); } }
proof fn wth(s: Seq<P2>, ix: Seq<int>, i: int) requires within(s, ix), 0 <= i < ix.len() ensures 0 <= ix[i] < s.len(), st(s, ix, i) == s[ix[i]] { let _ = ix[i]; }
pub proof fn begin(s: Seq<P2>, l: int) requires 0 <= l < s.len(), lowest(s, s[l]) ensures chain(s, seq![l]), last(s, seq![l]) == s[l]
{ let ix = seq![l]; assert(st(s, ix, 0) == s[l]); }
// the last vertex sees all points in a pointed half-plane
pub proof fn looking(s: Seq<P2>, ix: Seq<int>) -> (r: (P2, P2))
    requires chain(s, ix)
    ensures half(s, last(s, ix), r.0, r.1)
{
    let p = last(s, ix);
    if ix.len() == 1 {
        let (w, u) = ((1real, 0real), (0real, -1real));
        assert(cross2(w, u) != 0real) by(nonlinear_arith) requires w == (1real, 0real), u == (0real, -1real);
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies up(w, u, psub(s[j], p)) by {
            let v = psub(s[j], p);
            assert(yxcmp(p, s[j]) != Ordering::Greater);
            assert(cross2(w, v) == v.1 && cross2(u, v) == v.0) by(nonlinear_arith) requires w == (1real, 0real), u == (0real, -1real);
        }
        (w, u)
    } else {
        let m = ix.len() - 1; let b = st(s, ix, m - 1);
        let w = psub(p, b); let u = (-w.1, w.0);
        apr(s, ix, m - 1, m);
        assert(cross2(w, u) == w.0 * w.0 + w.1 * w.1) by(nonlinear_arith) requires u == (-w.1, w.0);
        assert(w.0 * w.0 + w.1 * w.1 > 0real) by(nonlinear_arith) requires w.0 != 0real || w.1 != 0real;
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies up(w, u, psub(s[j], p)) by {
            let a = s[j]; let v = psub(a, p);
            tig(s, ix, m - 1, j);
            assert(cross2(w, v) == cross3(b, p, a)) by { cross3_sym(b, p, a); turn(b, p, a); }
            if cross3(b, p, a) == 0real {
                let t = choose|t: real| seg_at(b, p, a, t);
                assert(v.0 == (t - 1real) * w.0 && v.1 == (t - 1real) * w.1) by(nonlinear_arith) requires a.0 - b.0 == t * (p.0 - b.0), a.1 - b.1 == t * (p.1 - b.1), v == psub(a, p), w == psub(p, b);
                assert(cross2(u, v) == (1real - t) * (w.0 * w.0 + w.1 * w.1)) by(nonlinear_arith) requires v.0 == (t - 1real) * w.0, v.1 == (t - 1real) * w.1, u == (-w.1, w.0);
                rmul_sign(1real - t, w.0 * w.0 + w.1 * w.1);
            }
        }
        (w, u)
    }
}
pub proof fn turn(b: P2, p: P2, a: P2) ensures cross2(psub(p, b), psub(a, p)) == cross3(b, p, a)
{ assert((p.0 - b.0) * (a.1 - p.1) - (p.1 - b.1) * (a.0 - p.0) == (p.0 - b.0) * (a.1 - b.1) - (p.1 - b.1) * (a.0 - b.0)) by(nonlinear_arith); }
// the lowest point is not between two others
proof fn corner(o: P2, p: P2, q: P2) requires yxcmp(o, p) != Ordering::Greater, yxcmp(o, q) != Ordering::Greater, on_seg(p, q, o), o != p, o != q ensures false
{
    let m = choose|m: real| seg_at(p, q, o, m);
    let (x, y) = (q.0 - p.0, q.1 - p.1);
    if m == 0real { rmul_sign(m, x); rmul_sign(m, y); }
    if m == 1real { assert(1real * x == x && 1real * y == y); }
    assert(0real < m < 1real);
    // o - p = m (q - p), q - o = (1 - m) (q - p)
    if y > 0real { rmul_sign(m, y); } else if y < 0real { assert((1real - m) * y == y - m * y) by(nonlinear_arith); rmul_sign(1real - m, y); }
    else {
        rmul_sign(m, y);
        if x > 0real { rmul_sign(m, x); } else if x < 0real { assert((1real - m) * x == x - m * x) by(nonlinear_arith); rmul_sign(1real - m, x); }
    }
}
// from the last vertex to the new one, older vertices are strictly to the left
proof fn to_last(s: Seq<P2>, ix: Seq<int>, k: int, i: int)
    requires chain(s, ix), 0 <= k < s.len(), best(s, last(s, ix), s[k], s.len() as int), s[k] != st(s, ix, 0), 0 <= i < ix.len() - 1
    ensures cross3(st(s, ix, i), last(s, ix), s[k]) > 0real
{
    hide(cross3); hide(on_seg); hide(yxcmp); hide(stacked); hide(tight); hide(apart); hide(within);
    let n = s.len() as int; let m = ix.len() - 1; let (o, p, q) = (st(s, ix, 0), last(s, ix), s[k]);
    wth(s, ix, 0); wth(s, ix, i); wth(s, ix, m);
    best_at(s, p, q, n, ix[0]); cross3_sym(o, p, q);
    if cross3(p, q, o) == 0real { apr(s, ix, 0, m); assert(yxcmp(o, s[ix[m]]) != Ordering::Greater); assert(yxcmp(o, s[k]) != Ordering::Greater); corner(o, p, q); }
    if i > 0 {
        let h = st(s, ix, i);
        best_at(s, p, q, n, ix[i]); cross3_sym(h, p, q);
        if cross3(p, q, h) == 0real { gra::scale(p, q, h, o); gra::tri(s, ix, 0, i, m); cross3_sym(o, h, p); }
    }
}
proof fn to_new(s: Seq<P2>, ix: Seq<int>, k: int, i: int, j: int)
    requires chain(s, ix), 0 <= k < s.len(), best(s, last(s, ix), s[k], s.len() as int), s[k] != st(s, ix, 0), 0 <= i < j < ix.len()
    ensures cross3(st(s, ix, i), st(s, ix, j), s[k]) > 0real
{
    hide(cross3); hide(on_seg); hide(yxcmp); hide(stacked); hide(tight); hide(apart); hide(within);
    let m = ix.len() - 1; let (p, q) = (last(s, ix), s[k]);
    to_last(s, ix, k, i);
    if j < m {
        let h = st(s, ix, i); let g = st(s, ix, i + 1);
        tig(s, ix, i, k); gra::tri(s, ix, i, i + 1, m);
        if cross3(h, g, q) == 0real { gra::scale(h, g, q, p); cross3_sym(h, q, p); assert(false); }
        if j > i + 1 {
            let b = st(s, ix, j);
            gra::tri(s, ix, i, i + 1, j); gra::tri(s, ix, i, j, m);
            gra::cone(h, g, b, p, q);
            rmul_sign(cross3(h, g, b), cross3(h, p, q)); rmul_sign(cross3(h, b, p), cross3(h, g, q));
            gra::pos(cross3(h, g, p), cross3(h, b, q));
        }
    }
}
// a new vertex
pub proof fn grow(s: Seq<P2>, ix: Seq<int>, k: int)
    requires chain(s, ix), 0 <= k < s.len(), best(s, last(s, ix), s[k], s.len() as int), s[k] != st(s, ix, 0)
    ensures chain(s, ix.push(k)), last(s, ix.push(k)) == s[k], ix.push(k).len() <= s.len(), forall|i: int| 0 <= i < ix.len() ==> #[trigger] st(s, ix.push(k), i) == st(s, ix, i)
{
    hide(cross3); hide(on_seg); hide(yxcmp); hide(stacked); hide(tight); hide(apart); hide(within); hide(best);
    let n = s.len() as int; let jx = ix.push(k); let m = ix.len() - 1; let (o, p, q) = (st(s, ix, 0), last(s, ix), s[k]);
    assert(forall|i: int| 0 <= i < ix.len() ==> #[trigger] st(s, jx, i) == st(s, ix, i));
    assert(st(s, jx, m + 1) == q);
    assert(within(s, jx)) by { reveal(within); }
    assert(tight(s, jx)) by { reveal(tight); assert forall|i: int| #![trigger st(s, jx, i)] 0 <= i < jx.len() - 1 implies best(s, st(s, jx, i), st(s, jx, i + 1), n) by { if i < m { let _ = st(s, ix, i); assert(st(s, jx, i + 1) == st(s, ix, i + 1)); } } }
    assert(stacked(s, jx)) by { reveal(stacked); assert forall|a: int, b: int, c: int| 0 <= a < b < c < jx.len() implies cross3(#[trigger] st(s, jx, a), #[trigger] st(s, jx, b), #[trigger] st(s, jx, c)) > 0real by {
        if c <= m { gra::tri(s, ix, a, b, c); } else { to_new(s, ix, k, a, b); }
    } }
    assert(apart(s, jx)) by { reveal(apart); assert forall|i: int, j: int| 0 <= i < j < jx.len() implies #[trigger] st(s, jx, i) != #[trigger] st(s, jx, j) by {
        if j <= m { apr(s, ix, i, j); }
        else if i == m { if q == p { wth(s, ix, 0); best_at(s, p, q, n, ix[0]); cross3_sym(p, q, o); on_self(p, o); } }
        else { to_last(s, ix, k, i); cross3_sym(q, p, q); }
    } }
    few_vertices(s, jx);
}
proof fn few_vertices(s: Seq<P2>, ix: Seq<int>) requires within(s, ix), apart(s, ix) ensures ix.len() <= s.len()
{
    assert(ix.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ix.len() && 0 <= j < ix.len() && i != j implies ix[i] != ix[j] by { apr(s, ix, i, j); } }
    ix.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, s.len() as int);
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    assert forall|x: int| #[trigger] ix.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == x; wth(s, ix, i); }
    vstd::set_lib::lemma_len_subset(ix.to_set(), r);
}
// back at the first vertex
pub proof fn close(s: Seq<P2>, ix: Seq<int>, k: int)
    requires chain(s, ix), 0 <= k < s.len(), best(s, last(s, ix), s[k], s.len() as int), s[k] == st(s, ix, 0)
    ensures ix.len() >= 3 ==> is_hull(stk(s, ix), s), ix.len() < 3 ==> flat(s)
{
    hide(cross3); hide(on_seg); hide(yxcmp); hide(stacked); hide(tight); hide(apart); hide(within); hide(best);
    let v = stk(s, ix); let n = ix.len() as int; let (o, p) = (st(s, ix, 0), last(s, ix)); let sn = s.len() as int;
    if n >= 3 {
        assert(forall|i: int| 0 <= i < n ==> #[trigger] v[i] == st(s, ix, i));
        assert(cring(v)) by { assert forall|i: int, j: int, k: int| 0 <= i < j < k < v.len() implies cross3(#[trigger] v[i], #[trigger] v[j], #[trigger] v[k]) > 0real by { gra::tri(s, ix, i, j, k); } }
        assert forall|i: int| 0 <= i < v.len() implies s.contains(#[trigger] v[i]) by { wth(s, ix, i); assert(s[ix[i]] == v[i]); }
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies !beyond(v, s[j]) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] eside(v, i, s[j]) >= 0real by {
                if i < n - 1 { tig(s, ix, i, j); assert(wrapi(i + 1, n) == i + 1); assert(v[i + 1] == st(s, ix, i + 1)); }
                else { assert(wrapi(n, n) == 0); best_at(s, p, s[k], sn, j); assert(v[n - 1] == p && v[0] == o); }
            }
        }
    } else {
        assert forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len() implies cross3(#[trigger] s[a], #[trigger] s[b], #[trigger] s[c]) == 0real by {
            thin(s, ix, k, a); thin(s, ix, k, b); thin(s, ix, k, c);
            gra::level(o, p, s[a], s[b], s[c]);
        }
    }
}
proof fn thin(s: Seq<P2>, ix: Seq<int>, k: int, j: int)
    requires chain(s, ix), ix.len() < 3, 0 <= k < s.len(), best(s, last(s, ix), s[k], s.len() as int), s[k] == st(s, ix, 0), 0 <= j < s.len()
    ensures on_seg(st(s, ix, 0), last(s, ix), s[j])
{
    best_at(s, last(s, ix), s[k], s.len() as int, j);
    if ix.len() == 2 { tig(s, ix, 0, j); cross3_sym(st(s, ix, 0), last(s, ix), s[j]); }
    else { cross3_sym(s[k], s[k], s[j]); }
}
// the same with closed names, for the loop
#[verifier::opaque]
pub open spec fn ch(s: Seq<P2>, ix: Seq<int>) -> bool { chain(s, ix) }
#[verifier::opaque]
pub open spec fn be(s: Seq<P2>, p: P2, q: P2, k: int) -> bool { best(s, p, q, k) }
#[verifier::opaque]
pub open spec fn ha(s: Seq<P2>, p: P2, w: P2, u: P2) -> bool { half(s, p, w, u) }
pub proof fn x_begin(s: Seq<P2>, l: int) requires 0 <= l < s.len(), lowest(s, s[l]) ensures ch(s, seq![l]) { reveal(ch); begin(s, l); }
pub proof fn x_looking(s: Seq<P2>, ix: Seq<int>, p: int, q: int) -> (r: (P2, P2)) requires ch(s, ix), ix.len() > 0, ix.last() == p ensures ha(s, s[p], r.0, r.1), be(s, s[p], s[q], 0) { reveal(ch); reveal(ha); reveal(be); looking(s, ix) }
pub proof fn x_read(s: Seq<P2>, p: P2, w: P2, u: P2, q: int, x: int)
    requires ha(s, p, w, u), 0 <= q < s.len(), 0 <= x < s.len(), be(s, p, s[q], x)
    ensures takes(p, s[q], s[x]) ==> be(s, p, s[x], x + 1), !takes(p, s[q], s[x]) ==> be(s, p, s[q], x + 1)
{ reveal(ha); reveal(be); read(s, p, w, u, q, x); }
pub open spec fn next(s: Seq<P2>, ix: Seq<int>, l: int, k: int) -> bool {
    &&& s[k] != s[l] ==> ch(s, ix.push(k)) && ix.push(k).len() <= s.len() && forall|i: int| 0 <= i < ix.len() ==> #[trigger] st(s, ix.push(k), i) == st(s, ix, i)
    &&& s[k] == s[l] ==> (ix.len() >= 3 ==> is_hull(stk(s, ix), s)) && (ix.len() < 3 ==> flat(s))
}
pub proof fn x_next(s: Seq<P2>, ix: Seq<int>, l: int, p: int, k: int)
    requires ch(s, ix), 0 <= k < s.len(), ix.len() > 0, ix[0] == l, ix.last() == p, be(s, s[p], s[k], s.len() as int)
    ensures next(s, ix, l, k)
{ reveal(ch); reveal(be); if s[k] == s[l] { close(s, ix, k); } else { grow(s, ix, k); } }
pub open spec fn held<T: PolygonScalar>(h: Seq<Point<T, 2>>, s: Seq<P2>, ix: Seq<int>) -> bool { h.len() + 1 == ix.len() && forall|i: int| 0 <= i < h.len() ==> pxy(#[trigger] h[i]) == st(s, ix, i) }
pub proof fn vertices<T: PolygonScalar>(p: Polygon<T>, h: Seq<Point<T, 2>>, s: Seq<P2>, ix: Seq<int>)
    requires h.len() == ix.len(), p.rings@.len() == 1, p.rings@[0]@.len() == h.len(), forall|k: int| 0 <= k < h.len() ==> at(p, 0, k) == #[trigger] h[k], forall|i: int| 0 <= i < h.len() ==> pxy(#[trigger] h[i]) == st(s, ix, i)
    ensures cvs(p) == stk(s, ix)
{
    let (a, b) = (cvs(p), stk(s, ix));
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(at(p, 0, i) == h[i]); }
    assert(a =~= b);
}
pub proof fn same<T: PolygonScalar>() ensures forall|a: Point<T, 2>, b: Point<T, 2>| (#[trigger] (&a).tcmp(&b) == Ordering::Equal) == (pxy(a) == pxy(b))
{ assert forall|a: Point<T, 2>, b: Point<T, 2>| (#[trigger] (&a).tcmp(&b) == Ordering::Equal) == (pxy(a) == pxy(b)) by { point_order_2d(a, b); } }
} }
verus! {
//@ fn src/algorithms/convex_hull/gift_wrapping.rs | - | leftmost_point_index
//@ ret r
//@ rewrite? .enumerate( =>> .venumerate(
//@ spec
    ensures match r {
        Ok(p) => p < pts@.len() && gif::lowest(pxs(pts@), pxs(pts@)[p as int]),
        Err(e) => e == Error::InsufficientVertices && pts@.len() == 0,
    }
//@ closure 0
    -> (o: Ordering) ensures o == yxcmp(pxy(*(vx_p1.1)), pxy(*(vx_p2.1)))
//@ closure 1
    -> (o: usize) ensures o == vx_p3.0
//@ top
    proof { gra::tc::<T>(); }
//@ tail res
    proof {
        if res is Ok {
            let p = res->Ok_0 as int; let ss = pxs(pts@);
            assert forall|k: int| #![trigger ss[k]] 0 <= k < ss.len() implies yxcmp(ss[p], ss[k]) != Ordering::Greater by { let _ = pts@[k]; }
        }
    }
//@ end
//@ fn src/algorithms/convex_hull/gift_wrapping.rs | - | convex_hull | rename=gift_hull
//@ ret r
//@ spec
    requires pts@.len() <= usize::MAX / 2
    ensures match r {
        Ok(p) => wf(p.0) && sound(p.0) && is_hull(cvs(p.0), pxs(pts@)),
        Err(e) => e == Error::InsufficientVertices && flat(pxs(pts@)),
    }
//@ top
    hide(cross3); hide(flat); hide(is_hull);
    proof { gra::tc::<T>(); gra::pclone::<T>(); gif::same::<T>(); if pts@.len() < 3 { gral::few(pxs(pts@)); } }
    let ghost ss = pxs(pts@);
    let ghost mut ix: Seq<int> = seq![0int];
//@ loop_before 0
    proof { ix = seq![leftmost as int]; gif::x_begin(ss, leftmost as int); assert(gif::held(hull@, ss, ix)); }
//@ loop 0
    invariant_except_break
        ix.last() == p, gif::held(hull@, ss, ix),
    invariant
        n == pts@.len(), n >= 3, ss == pxs(pts@), p < n, leftmost < n, gif::ch(ss, ix), ix.len() <= n, ix.len() > 0, ix[0] == leftmost, n <= usize::MAX / 2,
    ensures
        hull@.len() >= 3 ==> is_hull(gra::stk(ss, ix), ss), hull@.len() < 3 ==> flat(ss), hull@.len() == ix.len(), forall|i: int| 0 <= i < hull@.len() ==> pxy(#[trigger] hull@[i]) == gra::st(ss, ix, i)
    decreases n - hull@.len()
//@ loop_top 0
    let ghost h0 = hull@;
    proof { gra::pclone::<T>(); gif::same::<T>(); }
//@ loop_before 1
    let ghost at = p as int;
    let ghost (w, u) = gif::x_looking(ss, ix, p as int, q as int);
//@ loop 1
    invariant
        n == pts@.len(), ss == pxs(pts@), p < n, q < n, at == p, gif::ha(ss, ss[at], w, u), gif::be(ss, ss[at], ss[q as int], i as int),
        gif::ch(ss, ix), ix.len() > 0, ix[0] == leftmost, leftmost < n, ix.last() == at, i == n ==> gif::next(ss, ix, leftmost as int, q as int),
//@ loop_bottom 1
    proof { if i + 1 == n { gif::x_next(ss, ix, leftmost as int, at, q as int); } }
//@ loop_top 1
    proof { gif::x_read(ss, ss[at], w, u, q as int, i as int); }
//@ loop_bottom 0
    proof { ix = ix.push(p as int); }
//@ tail res
    proof { let p = res->Ok_0.0; gif::vertices(p, p.points@, ss, ix); reveal(is_hull); convexp::convex_sound(p); }
//@ end
} // verus!
// A set of points has one hull: two hulls of it are the same cycle of vertices.
pub mod huq { use super::*; verus! {
pub open spec fn same_cycle(u: Seq<P2>, v: Seq<P2>) -> bool {
    &&& u.len() == v.len() && forall|x: P2| #[trigger] u.contains(x) == v.contains(x)
    &&& forall|i: int, j: int| #![trigger u[i], v[j]] 0 <= i < u.len() && 0 <= j < v.len() && u[i] == v[j] ==> u[wrapi(i + 1, u.len() as int)] == v[wrapi(j + 1, v.len() as int)]
}
proof fn cr(v: Seq<P2>, i: int, j: int, k: int) requires cring(v), 0 <= i < j < k < v.len() ensures cross3(v[i], v[j], v[k]) > 0real { }
// vertices are distinct, three of them are never level
proof fn spread(v: Seq<P2>, i: int, j: int, k: int) requires cring(v), 0 <= i < v.len(), 0 <= j < v.len(), 0 <= k < v.len(), i != j, j != k, i != k ensures cross3(v[i], v[j], v[k]) != 0real
{
    let (a, b, c) = (v[i], v[j], v[k]); cross3_sym(a, b, c);
    if i < j { if j < k { cr(v, i, j, k); } else if i < k { cr(v, i, k, j); } else { cr(v, k, i, j); } }
    else { if i < k { cr(v, j, i, k); } else if j < k { cr(v, j, k, i); } else { cr(v, k, j, i); } }
}
proof fn differ(v: Seq<P2>, i: int, j: int) requires cring(v), 0 <= i < v.len(), 0 <= j < v.len(), i != j ensures v[i] != v[j]
{
    let k = if i != 0 && j != 0 { 0int } else if i != 1 && j != 1 { 1int } else { 2int };
    spread(v, i, j, k); cross3_sym(v[i], v[i], v[k]);
}
proof fn apexed(v: Seq<P2>, k: int) requires cring(v), 0 <= k < v.len() ensures cross3(v[k], v[wrapi(k + 1, v.len() as int)], v[wrapi(k - 1, v.len() as int)]) > 0real
{
    let n = v.len() as int; let (b, c, a) = (v[k], v[wrapi(k + 1, n)], v[wrapi(k - 1, n)]);
    cross3_sym(b, c, a);
    if k == 0 { cr(v, 0, 1, n - 1); } else if k == n - 1 { cr(v, 0, k - 1, k); cross3_sym(v[0], v[k - 1], v[k]); } else { cr(v, k - 1, k, k + 1); cross3_sym(a, b, c); }
}
proof fn side(v: Seq<P2>, i: int, p: P2) requires !beyond(v, p), 0 <= i < v.len() ensures cross3(v[i], v[wrapi(i + 1, v.len() as int)], p) >= 0real { if eside(v, i, p) < 0real { } }
// how far x is from b in the direction square to d
pub open spec fn lift(d: P2, b: P2, x: P2) -> real { cross2(d, psub(x, b)) }
proof fn bottom(d: P2, b: P2, v: Seq<P2>) -> (k: int)
    requires v.len() > 0
    ensures 0 <= k < v.len(), forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> lift(d, b, v[k]) <= lift(d, b, v[j])
    decreases v.len()
{
    if v.len() == 1 { 0 }
    else {
        let w = v.drop_last(); let k = bottom(d, b, w); let n = v.len() - 1;
        assert(forall|j: int| 0 <= j < n ==> w[j] == v[j]);
        if lift(d, b, v[n]) < lift(d, b, v[k]) { assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies lift(d, b, v[n]) <= lift(d, b, v[j]) by { if j < n { let _ = w[j]; } } n }
        else { assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies lift(d, b, v[k]) <= lift(d, b, v[j]) by { if j < n { let _ = w[j]; } } k }
    }
}
// nothing in a convex ring is lower than its lowest vertex
proof fn floor(v: Seq<P2>, q: P2, d: P2)
    requires cring(v), !beyond(v, q)
    ensures exists|k: int| 0 <= k < v.len() && lift(d, q, #[trigger] v[k]) <= 0real
{
    let n = v.len() as int;
    let k = bottom(d, q, v);
    let nx = wrapi(k + 1, n); let pv = wrapi(k - 1, n);
    let p = v[k]; let (e1, e2, w) = (psub(v[nx], p), psub(v[pv], p), psub(q, p));
    apexed(v, k); side(v, k, q); side(v, pv, q);
    assert(wrapi(pv + 1, n) == k);
    cross3_sym(v[pv], p, q);
    cross2_anti(w, e2);
    assert(lift(d, q, p) <= lift(d, q, v[nx])); assert(lift(d, q, p) <= lift(d, q, v[pv]));
    lifts(d, q, p, v[nx]); lifts(d, q, p, v[pv]); lifts(d, q, p, q); lifts(d, q, q, q);
    assert(lift(d, q, q) == 0real);
    plucker(d, e1, w, e2);
    rmul_sign(cross2(d, e1), cross2(w, e2)); rmul_sign(cross2(e1, w), cross2(d, e2)); rmc(cross2(d, w), cross2(e1, e2));
    gra::pos(cross2(e1, e2), cross2(d, w));
    assert(lift(d, q, v[k]) <= 0real);
}
proof fn lifts(d: P2, b: P2, p: P2, x: P2) ensures cross2(d, psub(x, p)) == lift(d, b, x) - lift(d, b, p)
{ assert(d.0 * (x.1 - p.1) - d.1 * (x.0 - p.0) == (d.0 * (x.1 - b.1) - d.1 * (x.0 - b.0)) - (d.0 * (p.1 - b.1) - d.1 * (p.0 - b.0))) by(nonlinear_arith); }
proof fn summed(a: P2, b: P2, c: P2, x: P2) ensures lift(psub(c, a), b, x) == cross2(psub(b, a), psub(x, b)) + cross2(psub(c, b), psub(x, b))
{ assert((c.0 - a.0) * (x.1 - b.1) - (c.1 - a.1) * (x.0 - b.0) == ((b.0 - a.0) * (x.1 - b.1) - (b.1 - a.1) * (x.0 - b.0)) + ((c.0 - b.0) * (x.1 - b.1) - (c.1 - b.1) * (x.0 - b.0))) by(nonlinear_arith); }
// every vertex of one hull is a vertex of the other
proof fn corner_kept(s: Seq<P2>, u: Seq<P2>, v: Seq<P2>, i: int)
    requires is_hull(u, s), is_hull(v, s), 0 <= i < u.len()
    ensures v.contains(u[i])
{
    let n = u.len() as int; let nx = wrapi(i + 1, n); let pv = wrapi(i - 1, n);
    let (a, b, c) = (u[pv], u[i], u[nx]); let d = psub(c, a);
    assert(s.contains(b));
    let z = choose|z: int| 0 <= z < s.len() && s[z] == b;
    assert(!beyond(v, s[z]));
    floor(v, b, d);
    let k = choose|k: int| 0 <= k < v.len() && lift(d, b, #[trigger] v[k]) <= 0real;
    let x = v[k];
    assert(s.contains(x));
    let y = choose|y: int| 0 <= y < s.len() && s[y] == x;
    assert(!beyond(u, s[y]));
    side(u, i, x); side(u, pv, x); assert(wrapi(pv + 1, n) == i);
    let (w, t, r) = (psub(b, a), psub(c, b), psub(x, b));
    gif::turn(a, b, x);
    assert(cross2(t, r) == cross3(b, c, x));
    summed(a, b, c, x);
    apexed(u, i); gif::turn(a, b, c); cross3_sym(b, c, a);
    gif::null(w, t, r);
}
proof fn all_kept(s: Seq<P2>, u: Seq<P2>, v: Seq<P2>)
    requires is_hull(u, s), is_hull(v, s)
    ensures forall|x: P2| #[trigger] u.contains(x) ==> v.contains(x)
{ assert forall|x: P2| #[trigger] u.contains(x) implies v.contains(x) by { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; corner_kept(s, u, v, i); } }
proof fn no_more(u: Seq<P2>, v: Seq<P2>)
    requires cring(u), forall|x: P2| #[trigger] u.contains(x) ==> v.contains(x)
    ensures u.len() <= v.len()
{
    assert(u.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by { differ(u, i, j); } }
    u.unique_seq_to_set();
    v.lemma_cardinality_of_set();
    assert forall|x: P2| #[trigger] u.to_set().contains(x) implies v.to_set().contains(x) by { assert(u.contains(x)); }
    vstd::set_lib::lemma_len_subset(u.to_set(), v.to_set());
}
// C15: every way of computing the hull gives the same vertices in the same cyclic order
pub proof fn one_hull(s: Seq<P2>, u: Seq<P2>, v: Seq<P2>)
    requires is_hull(u, s), is_hull(v, s)
    ensures same_cycle(u, v)
{
    all_kept(s, u, v); all_kept(s, v, u); no_more(u, v); no_more(v, u);
    let n = u.len() as int;
    assert forall|i: int, j: int| #![trigger u[i], v[j]] 0 <= i < u.len() && 0 <= j < v.len() && u[i] == v[j] implies u[wrapi(i + 1, n)] == v[wrapi(j + 1, n)] by {
        let ni = wrapi(i + 1, n); let nj = wrapi(j + 1, n); let (a, b, c) = (u[i], u[ni], v[nj]);
        assert(s.contains(u[ni]) && s.contains(v[nj]));
        let y = choose|y: int| 0 <= y < s.len() && s[y] == b; let z = choose|z: int| 0 <= z < s.len() && s[z] == c;
        assert(!beyond(v, s[y]) && !beyond(u, s[z]));
        side(v, j, b); side(u, i, c); cross3_sym(a, b, c);
        assert(v.contains(c)); assert(u.contains(c));
        let k = choose|k: int| 0 <= k < u.len() && u[k] == c;
        differ(v, j, nj);
        if k != ni { spread(u, i, ni, k); }
    }
}
} }
