// Line segments as sets of points of the plane: contains and intersect.
verus! {
//@ item src/data/line_segment.rs | EndPoint | attr=#[derive(Copy, Clone)]
use EndPoint::*;
//@ item src/data/line_segment.rs | LineSegmentView | fields=pub
//@ item src/data/line_segment.rs | LineSegment | fields=pub
//@ item src/data/line_segment.rs | ILineSegment
pub open spec fn ein<T: TotalOrd>(e: EndPoint<T>) -> T { match e { EndPoint::Exclusive(t) => t, EndPoint::Inclusive(t) => t } }
pub open spec fn eincl<T: TotalOrd>(e: EndPoint<T>) -> bool { e is Inclusive }
// x belongs to the half-line of the order that starts (ends) at e
pub open spec fn after<T: TotalOrd>(e: EndPoint<T>, x: T) -> bool { (&ein(e)).tcmp(&x) == Ordering::Less || (eincl(e) && (&ein(e)).tcmp(&x) == Ordering::Equal) }
pub open spec fn before<T: TotalOrd>(x: T, e: EndPoint<T>) -> bool { (&x).tcmp(&ein(e)) == Ordering::Less || (eincl(e) && (&x).tcmp(&ein(e)) == Ordering::Equal) }
pub open spec fn emap<T: TotalOrd>(e: EndPoint<T>, x: T) -> bool { ein(e) == x }

impl<T: TotalOrd> EndPoint<T> {
//@ fn src/data/line_segment.rs | impl EndPoint<T> | inner
//@ ret r
//@ spec
    ensures *r == ein(*self)
//@ end
//@ fn src/data/line_segment.rs | impl EndPoint<T> | take
//@ ret r
//@ spec
    ensures r == ein(self)
//@ end
//@ fn src/data/line_segment.rs | impl EndPoint<T> | as_ref
//@ ret r
//@ spec
    ensures *ein(r) == ein(*self), eincl(r) == eincl(*self)
//@ end
//@ fn src/data/line_segment.rs | impl EndPoint<T> | is_exclusive
//@ ret r
//@ spec
    ensures r == !eincl(*self)
//@ end
//@ fn src/data/line_segment.rs | impl EndPoint<T> | is_inclusive
//@ ret r
//@ spec
    ensures r == eincl(*self)
//@ end
//@ fn src/data/line_segment.rs | impl EndPoint<T> | leftmost
//@ ret r
//@ spec
    requires <T as OrdSpec>::obeys_cmp_spec(), forall|a: &T, b: &T| #[trigger] OrdSpec::cmp_spec(a, b) == a.tcmp(b)
    ensures
        // r ends the common part: exactly the x before both
        r == self || r == other,
        (&ein(self)).tcmp(&ein(other)) == Ordering::Less ==> r == self,
        (&ein(self)).tcmp(&ein(other)) == Ordering::Greater ==> r == other,
        (&ein(self)).tcmp(&ein(other)) == Ordering::Equal ==> eincl(r) == (eincl(self) && eincl(other)),
//@ top
    proof { T::tcmp_laws(&ein(self), &ein(other), &ein(self)); }
//@ end
//@ fn src/data/line_segment.rs | impl EndPoint<T> | rightmost
//@ ret r
//@ spec
    requires <T as OrdSpec>::obeys_cmp_spec(), forall|a: &T, b: &T| #[trigger] OrdSpec::cmp_spec(a, b) == a.tcmp(b)
    ensures
        ein(r) == ein(self) || ein(r) == ein(other),
        (&ein(self)).tcmp(&ein(other)) == Ordering::Less ==> r == other,
        (&ein(self)).tcmp(&ein(other)) == Ordering::Greater ==> r == self,
        (&ein(self)).tcmp(&ein(other)) == Ordering::Equal ==> eincl(r) == (eincl(self) && eincl(other)),
//@ top
    proof { T::tcmp_laws(&ein(self), &ein(other), &ein(self)); }
//@ end
}
//@ fn src/data/line_segment.rs | - | inner_between
//@ ret r
//@ spec
    ensures r == ({
        let (lo, hi) = if (*ein(a)).tcmp(ein(b)) == Ordering::Less { (a, b) } else { (b, a) };
        &&& ((*ein(lo)).tcmp(inner) == Ordering::Less || (eincl(lo) && (*ein(lo)).tcmp(inner) == Ordering::Equal))
        &&& ((*inner).tcmp(ein(hi)) == Ordering::Less || (eincl(hi) && (*inner).tcmp(ein(hi)) == Ordering::Equal))
    })
//@ end

// ---- the segment as a set of points
pub struct Seg { pub lo: P2, pub hi: P2, pub loi: bool, pub hii: bool }
pub open spec fn plex(a: P2, b: P2) -> Ordering { if a.0 != b.0 { rcmp(a.0, b.0) } else { rcmp(a.1, b.1) } }
pub open spec fn lerp(a: P2, b: P2, t: real) -> P2 { (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)) }
pub open spec fn seg_ok(s: Seg) -> bool { plex(s.lo, s.hi) != Ordering::Greater }
// p = lo + t (hi - lo) for some t in [0,1], the ends only if they belong to the segment
pub open spec fn seg_at(s: Seg, p: P2, t: real) -> bool {
    p == lerp(s.lo, s.hi, t) && 0real <= t <= 1real && (p == s.lo ==> s.loi) && (p == s.hi ==> s.hii)
}
pub open spec fn seg_has(s: Seg, p: P2) -> bool { exists|t: real| seg_at(s, p, t) }
// the test the code makes
pub open spec fn seg_test(s: Seg, p: P2) -> bool {
    &&& cross3(s.lo, s.hi, p) == 0real
    &&& plex(s.lo, p) == Ordering::Less || (s.loi && s.lo == p)
    &&& plex(p, s.hi) == Ordering::Less || (s.hii && p == s.hi)
}
pub proof fn rdiv(a: real, b: real) requires b != 0real ensures (a / b) * b == a, b > 0real && 0real <= a <= b ==> 0real <= a / b <= 1real
{
    assert((a / b) * b == a) by(nonlinear_arith) requires b != 0real;
    if b > 0real && 0real <= a <= b { assert(0real <= a / b <= 1real) by(nonlinear_arith) requires 0real <= a <= b, b > 0real; }
}
pub proof fn cross_lerp(a: P2, b: P2, t: real)
    ensures cross3(a, b, lerp(a, b, t)) == 0real
{
    let dx = b.0 - a.0; let dy = b.1 - a.1;
    assert(dx * (t * dy) == dy * (t * dx)) by(nonlinear_arith);
}
pub proof fn cross_at(u: P2, v: P2, a: P2, b: P2, t: real)
    ensures cross3(u, v, lerp(a, b, t)) == cross3(u, v, a) + t * (cross3(u, v, b) - cross3(u, v, a))
{
    let ux = v.0 - u.0; let uy = v.1 - u.1; let dx = b.0 - a.0; let dy = b.1 - a.1;
    let fa = cross3(u, v, a); let fb = cross3(u, v, b);
    rd(ux, a.1 - u.1, t * dy); rd(uy, a.0 - u.0, t * dx);
    rd(ux, b.1 - u.1, a.1 - u.1); rd(uy, b.0 - u.0, a.0 - u.0);
    assert((b.1 - u.1) - (a.1 - u.1) == dy); assert((b.0 - u.0) - (a.0 - u.0) == dx);
    assert(fb - fa == ux * dy - uy * dx);
    assert(ux * (t * dy) == t * (ux * dy)) by(nonlinear_arith);
    assert(uy * (t * dx) == t * (uy * dx)) by(nonlinear_arith);
    rd(t, ux * dy, uy * dx);
    let p = lerp(a, b, t);
    assert(p.0 - u.0 == (a.0 - u.0) + t * dx);
    assert(p.1 - u.1 == (a.1 - u.1) + t * dy);
}
// points of a proper segment, in the order of the points
pub proof fn lerp_order(a: P2, b: P2, t: real)
    requires plex(a, b) == Ordering::Less
    ensures
        t > 0real ==> plex(a, lerp(a, b, t)) == Ordering::Less,
        t < 1real ==> plex(lerp(a, b, t), b) == Ordering::Less,
        t == 0real ==> lerp(a, b, t) == a, t == 1real ==> lerp(a, b, t) == b,
{
    let dx = b.0 - a.0; let dy = b.1 - a.1;
    rmul_sign(t, dx); rmul_sign(t, dy); rmul_sign(1real - t, dx); rmul_sign(1real - t, dy);
    rd(dx, 1real, t); rd(dy, 1real, t);
    assert((1real - t) * dx == dx - t * dx); assert((1real - t) * dy == dy - t * dy);
}
pub proof fn seg_test_is_membership(s: Seg, p: P2)
    requires seg_ok(s)
    ensures seg_test(s, p) == seg_has(s, p)
{
    let dx = s.hi.0 - s.lo.0; let dy = s.hi.1 - s.lo.1; let ex = p.0 - s.lo.0; let ey = p.1 - s.lo.1;
    if seg_test(s, p) {
        if s.lo == s.hi {
            assert(seg_at(s, p, 0real)) by { assert(0real * dx == 0real && 0real * dy == 0real) by(nonlinear_arith); }
        } else if dx != 0real {
            let t = ex / dx;
            assert(dx > 0real && 0real <= ex <= dx);
            rdiv(ex, dx);
            assert(t * dx == ex);
            assert(dx * ey == dy * ex);
            assert(ey == t * dy) by(nonlinear_arith) requires dx * ey == dy * ex, t * dx == ex, dx > 0real;
            assert(seg_at(s, p, t));
        } else {
            let t = ey / dy;
            assert(ex == 0real) by { assert(plex(s.lo, p) != Ordering::Greater && plex(p, s.hi) != Ordering::Greater); }
            assert(dy > 0real && 0real <= ey <= dy);
            rdiv(ey, dy);
            assert(t * dx == 0real) by(nonlinear_arith) requires dx == 0real;
            assert(seg_at(s, p, t));
        }
    }
    if seg_has(s, p) {
        let t = choose|t: real| seg_at(s, p, t);
        cross_lerp(s.lo, s.hi, t);
        if plex(s.lo, s.hi) == Ordering::Less { lerp_order(s.lo, s.hi, t); }
        else { assert(s.lo == s.hi); assert(t * dx == 0real && t * dy == 0real) by(nonlinear_arith) requires dx == 0real, dy == 0real; }
    }
}
pub proof fn plex_laws(a: P2, b: P2, c: P2)
    ensures plex(b, a) == orev(plex(a, b)), (plex(a, b) == Ordering::Equal) == (a == b),
        plex(a, b) != Ordering::Greater && plex(b, c) != Ordering::Greater ==> plex(a, c) != Ordering::Greater,
        plex(a, b) == Ordering::Less && plex(b, c) != Ordering::Greater ==> plex(a, c) == Ordering::Less,
        plex(a, b) != Ordering::Greater && plex(b, c) == Ordering::Less ==> plex(a, c) == Ordering::Less,
{}
// a point on two lines that are not parallel is their only common point
pub proof fn two_lines(u: P2, w: P2, d: P2)
    requires cross2(u, w) != 0real, cross2(u, d) == 0real, cross2(w, d) == 0real
    ensures d == (0real, 0real)
{
    let k = cross2(u, w);
    // k * d == cross(d, w) u + cross(u, d) w
    assert(d.0 * k == (d.0 * w.1 - d.1 * w.0) * u.0 + (u.0 * d.1 - u.1 * d.0) * w.0) by {
        rd(d.0, u.0 * w.1, u.1 * w.0); rd(u.0, d.0 * w.1, d.1 * w.0); rd(w.0, u.0 * d.1, u.1 * d.0);
        rm3(d.0, u.0, w.1); rm3(d.0, u.1, w.0); rm3(u.0, d.1, w.0);
    }
    assert(d.1 * k == (d.0 * w.1 - d.1 * w.0) * u.1 + (u.0 * d.1 - u.1 * d.0) * w.1) by {
        rd(d.1, u.0 * w.1, u.1 * w.0); rd(u.1, d.0 * w.1, d.1 * w.0); rd(w.1, u.0 * d.1, u.1 * d.0);
        rm3(d.1, u.0, w.1); rm3(d.1, u.1, w.0); rm3(u.1, d.0, w.1);
    }
    rmc(d.0, w.1); rmc(d.1, w.0); rmc(u.0, d.1); rmc(u.1, d.0);
    assert(d.0 * w.1 - d.1 * w.0 == 0real);
    assert(u.0 * d.1 - u.1 * d.0 == 0real);
    assert(d.0 * k == 0real) by { rmul_sign(0real, u.0); rmul_sign(0real, w.0); }
    assert(d.1 * k == 0real) by { rmul_sign(0real, u.1); rmul_sign(0real, w.1); }
    rmul_sign(d.0, k); rmul_sign(d.1, k);
}
pub proof fn rm3(a: real, b: real, c: real) ensures a * (b * c) == b * (a * c), a * (b * c) == c * (a * b), a * (b * c) == (a * b) * c, b * (a * c) == (a * b) * c, c * (a * b) == (a * b) * c,
    a * (c * b) == a * (b * c), c * (b * a) == a * (b * c), b * (c * a) == a * (b * c)
{ assert(a * (b * c) == b * (a * c) && a * (b * c) == c * (a * b) && a * (b * c) == (a * b) * c && a * (c * b) == a * (b * c) && c * (b * a) == a * (b * c) && b * (c * a) == a * (b * c)) by(nonlinear_arith); }
pub open spec fn parallel_segs(s: Seg, t: Seg) -> bool { cross2(psub(s.hi, s.lo), psub(t.hi, t.lo)) == 0real }
pub proof fn cross3_dir(a: P2, b: P2, c: P2, d: P2)
    ensures cross3(a, b, d) - cross3(a, b, c) == cross2(psub(b, a), psub(d, c))
{ rd(b.0 - a.0, d.1 - a.1, c.1 - a.1); rd(b.1 - a.1, d.0 - a.0, c.0 - a.0);
  assert((d.1 - a.1) - (c.1 - a.1) == d.1 - c.1); assert((d.0 - a.0) - (c.0 - a.0) == d.0 - c.0); }
// p and q both lie on both lines, the lines are not parallel: p == q
pub proof fn meet_unique(s: Seg, t: Seg, p: P2, q: P2)
    requires !parallel_segs(s, t), cross3(s.lo, s.hi, p) == 0real, cross3(s.lo, s.hi, q) == 0real, cross3(t.lo, t.hi, p) == 0real, cross3(t.lo, t.hi, q) == 0real
    ensures p == q
{
    cross3_dir(s.lo, s.hi, p, q); cross3_dir(t.lo, t.hi, p, q);
    two_lines(psub(s.hi, s.lo), psub(t.hi, t.lo), psub(q, p));
}
// the supporting lines properly cross inside both segments
pub proof fn proper_cross(s: Seg, t: Seg)
    requires seg_ok(s), seg_ok(t),
        orient3(s.lo, s.hi, t.lo) != Orientation::CoLinear, orient3(t.lo, t.hi, s.lo) != Orientation::CoLinear,
        cross3(s.lo, s.hi, t.lo) < 0real <==> cross3(s.lo, s.hi, t.hi) > 0real, cross3(s.lo, s.hi, t.hi) != 0real,
        cross3(t.lo, t.hi, s.lo) < 0real <==> cross3(t.lo, t.hi, s.hi) > 0real, cross3(t.lo, t.hi, s.hi) != 0real,
    ensures !parallel_segs(s, t), exists|p: P2| seg_test(s, p) && seg_test(t, p)
{
    cross3_dir(s.lo, s.hi, t.lo, t.hi);
    let f1 = cross3(t.lo, t.hi, s.lo); let f2 = cross3(t.lo, t.hi, s.hi);
    let g1 = cross3(s.lo, s.hi, t.lo); let g2 = cross3(s.lo, s.hi, t.hi);
    cross3_sym(s.lo, s.hi, t.lo); cross3_sym(t.lo, t.hi, s.lo);
    if s.lo == s.hi { cross3_sym(s.lo, s.lo, t.lo); }
    if t.lo == t.hi { cross3_sym(t.lo, t.lo, s.lo); }
    let (a, p) = crossing_param(s.lo, s.hi, f1, f2);
    cross_at(t.lo, t.hi, s.lo, s.hi, a); cross_lerp(s.lo, s.hi, a); lerp_order(s.lo, s.hi, a);
    let (b, q) = crossing_param(t.lo, t.hi, g1, g2);
    cross_at(s.lo, s.hi, t.lo, t.hi, b); cross_lerp(t.lo, t.hi, b); lerp_order(t.lo, t.hi, b);
    meet_unique(s, t, p, q);
    assert(seg_test(s, p) && seg_test(t, p));
}
proof fn crossing_param(a: P2, b: P2, f1: real, f2: real) -> (r: (real, P2))
    requires f1 != 0real, f2 != 0real, f1 < 0real <==> f2 > 0real
    ensures 0real < r.0 < 1real, r.1 == lerp(a, b, r.0), f1 + r.0 * (f2 - f1) == 0real
{
    let d = f1 - f2;
    let t = f1 / d;
    rdiv(f1, d);
    assert(0real < t < 1real) by(nonlinear_arith) requires t * d == f1, (f1 < 0real && d < f1) || (f1 > 0real && d > f1);
    rneg(t, d);
    assert(f2 - f1 == -d);
    (t, lerp(a, b, t))
}
// both ends of t strictly on the same side of the line through s: they do not meet
pub proof fn same_side(s: Seg, t: Seg, p: P2)
    requires seg_ok(t), (cross3(s.lo, s.hi, t.lo) > 0real && cross3(s.lo, s.hi, t.hi) > 0real) || (cross3(s.lo, s.hi, t.lo) < 0real && cross3(s.lo, s.hi, t.hi) < 0real), seg_test(t, p)
    ensures !seg_test(s, p)
{
    seg_test_is_membership(t, p);
    let k = choose|k: real| seg_at(t, p, k);
    cross_at(s.lo, s.hi, t.lo, t.hi, k);
    let a = cross3(s.lo, s.hi, t.lo); let b = cross3(s.lo, s.hi, t.hi);
    assert(a + k * (b - a) != 0real) by(nonlinear_arith) requires 0real <= k <= 1real, (a > 0real && b > 0real) || (a < 0real && b < 0real);
}
// t.lo (or t.hi) is the only point of t on the line through s
pub proof fn touch(s: Seg, t: Seg, e: P2, p: P2)
    requires seg_ok(s), seg_ok(t), e == t.lo || e == t.hi, cross3(s.lo, s.hi, e) == 0real,
        !(cross3(s.lo, s.hi, t.lo) == 0real && cross3(s.lo, s.hi, t.hi) == 0real),
    ensures !parallel_segs(s, t), seg_test(s, p) && seg_test(t, p) ==> p == e,
        seg_test(t, e) == (if e == t.lo { t.loi } else { t.hii }),
{
    cross3_dir(s.lo, s.hi, t.lo, t.hi);
    cross3_sym(t.lo, t.hi, t.lo); cross3_sym(t.lo, t.hi, t.hi);
    if t.lo == t.hi { assert(false); }
    if seg_test(s, p) && seg_test(t, p) { meet_unique(s, t, p, e); }
}
pub open spec fn colinear_segs(s: Seg, t: Seg) -> bool {
    cross3(s.lo, s.hi, t.lo) == 0real && cross3(s.lo, s.hi, t.hi) == 0real && cross3(t.lo, t.hi, s.lo) == 0real && cross3(t.lo, t.hi, s.hi) == 0real
}
// lines: a, b distinct and c, d, on their line; then a point is on line ab iff on line cd (if c != d)
pub proof fn same_line(a: P2, b: P2, c: P2, d: P2, p: P2)
    requires a != b, c != d, cross3(a, b, c) == 0real, cross3(a, b, d) == 0real
    ensures cross3(a, b, p) == 0real <==> cross3(c, d, p) == 0real
{
    let u = psub(b, a); let v = psub(d, c);
    cross3_dir(a, b, c, d); // u x v == 0
    cross3_dir(a, b, c, p); // u x (p - c) == cross3(a,b,p)
    cross2_anti(u, v);
    if cross3(a, b, p) == 0real { colinear::parallel(u, v, psub(p, c)); }
    if cross3(c, d, p) == 0real { assert(cross2(v, psub(p, c)) == 0real); colinear::parallel(v, u, psub(p, c)); }
}
pub proof fn overlap_case(s: Seg, t: Seg, o: Seg, p: P2)
    requires seg_ok(s), seg_ok(t), colinear_segs(s, t),
        o.lo == (if plex(s.lo, t.lo) == Ordering::Less { t.lo } else { s.lo }),
        o.loi == (if plex(s.lo, t.lo) == Ordering::Less { t.loi } else if plex(s.lo, t.lo) == Ordering::Greater { s.loi } else { s.loi && t.loi }),
        o.hi == (if plex(s.hi, t.hi) == Ordering::Greater { t.hi } else { s.hi }),
        o.hii == (if plex(s.hi, t.hi) == Ordering::Greater { t.hii } else if plex(s.hi, t.hi) == Ordering::Less { s.hii } else { s.hii && t.hii }),
    ensures
        seg_ok(o) ==> seg_test(o, p) == (seg_test(s, p) && seg_test(t, p)),
        !seg_ok(o) ==> !(seg_test(s, p) && seg_test(t, p)),
        plex(o.lo, o.hi) == Ordering::Less ==> (exists|x: P2| seg_test(o, x)),
        o.lo == o.hi && o.loi && o.hii ==> seg_test(o, o.lo),
        o.lo == o.hi && !(o.loi && o.hii) ==> !seg_test(o, p),
        parallel_segs(s, t),
{
    cross3_dir(s.lo, s.hi, t.lo, t.hi);
    plex_laws(s.lo, t.lo, p); plex_laws(t.lo, s.lo, p); plex_laws(p, s.hi, t.hi); plex_laws(p, t.hi, s.hi); plex_laws(s.lo, s.hi, t.lo); plex_laws(o.lo, p, o.hi);
    plex_laws(s.lo, p, s.hi); plex_laws(t.lo, p, t.hi);
    cross3_sym(o.lo, o.lo, p); cross3_sym(s.lo, s.hi, s.lo); cross3_sym(s.lo, s.hi, s.hi);
    cross3_sym(t.lo, t.hi, t.lo); cross3_sym(t.lo, t.hi, t.hi);
    if plex(o.lo, o.hi) == Ordering::Less {
        assert(s.lo != s.hi || t.lo != t.hi);
        assert(s.lo != s.hi);
        assert(t.lo != t.hi);
        same_line(s.lo, s.hi, t.lo, t.hi, p);
        same_line(s.lo, s.hi, o.lo, o.hi, p);
        let m = lerp(o.lo, o.hi, 0.5real);
        lerp_order(o.lo, o.hi, 0.5real); cross_lerp(o.lo, o.hi, 0.5real);
        assert(seg_test(o, m));
    } else if o.lo == o.hi {
        if p == o.lo {
            assert(cross3(s.lo, s.hi, p) == 0real && cross3(t.lo, t.hi, p) == 0real);
        }
    }
}
pub open spec fn vseg<'a, T: PolygonScalar>(v: LineSegmentView<'a, T, 2>) -> Seg {
    Seg { lo: pxy(*ein(v.min)), hi: pxy(*ein(v.max)), loi: eincl(v.min), hii: eincl(v.max) }
}
pub open spec fn lseg<T: PolygonScalar>(v: LineSegment<T, 2>) -> Seg {
    Seg { lo: pxy(ein(v.min)), hi: pxy(ein(v.max)), loi: eincl(v.min), hii: eincl(v.max) }
}
pub open spec fn vord<'a, T: TotalOrd, const N: usize>(v: LineSegmentView<'a, T, N>) -> bool { ein(v.min).tcmp(ein(v.max)) != Ordering::Greater }
// the two segments have a common point
pub open spec fn meets(s: Seg, t: Seg) -> bool { exists|p: P2| seg_has(s, p) && seg_has(t, p) }
pub open spec fn isect_ok<'a, T: PolygonScalar>(s: Seg, t: Seg, r: Option<ILineSegment<'a, T>>) -> bool {
    match r {
        None => !meets(s, t),
        Some(ILineSegment::Crossing) => !parallel_segs(s, t) && meets(s, t),
        Some(ILineSegment::Overlap(v)) => {
            &&& parallel_segs(s, t)
            &&& seg_ok(vseg(v))
            &&& forall|p: P2| #![auto] seg_has(vseg(v), p) == (seg_has(s, p) && seg_has(t, p))
            &&& meets(s, t)
        }
    }
}
pub proof fn membership_all(s: Seg) requires seg_ok(s) ensures forall|p: P2| #[trigger] seg_has(s, p) == seg_test(s, p)
{ assert forall|p: P2| #[trigger] seg_has(s, p) == seg_test(s, p) by { seg_test_is_membership(s, p); } }
impl<'a, T: TotalOrd, const N: usize> Clone for LineSegmentView<'a, T, N> {
//@ fn src/data/line_segment.rs | Clone for LineSegmentView<'_, T, N> | clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'a, T: TotalOrd, const N: usize> Copy for LineSegmentView<'a, T, N> {}
impl<T: TotalOrd, const N: usize> LineSegment<T, N> {
//@ fn src/data/line_segment.rs | impl LineSegment<T, N> | new
//@ ret r
//@ spec
    ensures (r.min == a && r.max == b) || (r.min == b && r.max == a), (&ein(r.min)).tcmp(&ein(r.max)) != Ordering::Greater,
        (&ein(a)).tcmp(&ein(b)) == Ordering::Less ==> r.min == a
//@ top
    proof { Point::<T, N>::tcmp_laws(&ein(a), &ein(b), &ein(a)); }
//@ end
//@ fn src/data/line_segment.rs | impl LineSegment<T, N> | as_ref
//@ ret r
//@ spec
    ensures *ein(r.min) == ein(self.min), *ein(r.max) == ein(self.max), eincl(r.min) == eincl(self.min), eincl(r.max) == eincl(self.max)
//@ end
}
impl<T: TotalOrd> LineSegment<T> {
//@ fn src/data/line_segment.rs | impl LineSegment<T> | contains
//@ ret r
//@ spec
    requires (&ein(self.min)).tcmp(&ein(self.max)) != Ordering::Greater
    ensures r == seg_has(lseg(*self), pxy(*pt))
//@ end
}
impl<'a, T: TotalOrd, const N: usize> LineSegmentView<'a, T, N> {
//@ fn src/data/line_segment.rs | impl LineSegmentView<'a, T, N> | new
//@ ret r
//@ spec
    ensures (r.min == a && r.max == b) || (r.min == b && r.max == a), vord(r), ein(a).tcmp(ein(b)) == Ordering::Less ==> r.min == a
//@ top
    proof { Point::<T, N>::tcmp_laws(ein(a), ein(b), ein(a)); }
//@ end
}
impl<'a, T: TotalOrd> LineSegmentView<'a, T> {
//@ fn src/data/line_segment.rs | impl LineSegmentView<'_, T> | contains
//@ ret r
//@ spec
    requires vord(*self)
    ensures r == seg_has(vseg(*self), pxy(*pt))
//@ top
    proof {
        point_order_2d(*ein(self.min), *pt); point_order_2d(*pt, *ein(self.max)); point_order_2d(*ein(self.min), *ein(self.max));
        point_order_2d(*ein(self.max), *pt); point_order_2d(*pt, *ein(self.min));
        seg_test_is_membership(vseg(*self), pxy(*pt));
        cross3_sym(pxy(*ein(self.min)), pxy(*ein(self.max)), pxy(*pt));
    }
//@ end
}
pub trait Intersects<T = Self>: Sized {
    type Result;
    spec fn isect_req(self, other: T) -> bool;
    spec fn isect_ens(self, other: T, r: Option<Self::Result>) -> bool;
    fn intersect(self, other: T) -> (r: Option<Self::Result>)
        requires self.isect_req(other)
        ensures self.isect_ens(other, r);
}
impl<'a, T> Intersects for LineSegmentView<'a, T> where T: PolygonScalar {
    type Result = ILineSegment<'a, T>;
    open spec fn isect_req(self, other: LineSegmentView<'a, T>) -> bool { vord(self) && vord(other) }
    open spec fn isect_ens(self, other: LineSegmentView<'a, T>, r: Option<ILineSegment<'a, T>>) -> bool { isect_ok(vseg(self), vseg(other), r) }
//@ fn src/data/line_segment.rs | Intersects for LineSegmentView<'a, T> | intersect
//@ top
    hide(xcross); hide(rcmp); hide(parallel_segs);
    proof { segp::setup(self, other); segp::cases(vseg(self), vseg(other)); }
//@ end
}
impl<'a, T> Intersects for &'a LineSegment<T> where T: PolygonScalar {
    type Result = ILineSegment<'a, T>;
    open spec fn isect_req(self, other: &'a LineSegment<T>) -> bool { (&ein(self.min)).tcmp(&ein(self.max)) != Ordering::Greater && (&ein(other.min)).tcmp(&ein(other.max)) != Ordering::Greater }
    open spec fn isect_ens(self, other: &'a LineSegment<T>, r: Option<ILineSegment<'a, T>>) -> bool { isect_ok(lseg(*self), lseg(*other), r) }
//@ fn src/data/line_segment.rs | Intersects for &'a LineSegment<T> | intersect
//@ end
}
} // verus!
pub mod segp { use super::*; verus! {
pub open spec fn case_of(s: Seg, t: Seg) -> u8 {
    if cross3(s.lo, s.hi, t.lo) == 0real && cross3(s.lo, s.hi, t.hi) == 0real && cross3(t.lo, t.hi, s.lo) == 0real { 0 }
    else if cross3(s.lo, s.hi, t.lo) == 0real { 1 } else if cross3(s.lo, s.hi, t.hi) == 0real { 2 }
    else if cross3(t.lo, t.hi, s.lo) == 0real { 3 } else if cross3(t.lo, t.hi, s.hi) == 0real { 4 } else { 5 }
}
pub open spec fn common(s: Seg, t: Seg) -> Seg {
    Seg {
        lo: if plex(s.lo, t.lo) == Ordering::Less { t.lo } else { s.lo },
        loi: if plex(s.lo, t.lo) == Ordering::Less { t.loi } else if plex(s.lo, t.lo) == Ordering::Greater { s.loi } else { s.loi && t.loi },
        hi: if plex(s.hi, t.hi) == Ordering::Greater { t.hi } else { s.hi },
        hii: if plex(s.hi, t.hi) == Ordering::Greater { t.hii } else if plex(s.hi, t.hi) == Ordering::Less { s.hii } else { s.hii && t.hii },
    }
}
pub open spec fn opposite(x: real, y: real) -> bool { (x < 0real && y > 0real) || (x > 0real && y < 0real) }
pub proof fn cases(s: Seg, t: Seg)
    requires seg_ok(s), seg_ok(t)
    ensures ({
        let o = common(s, t);
        match case_of(s, t) {
            0 => {
                &&& parallel_segs(s, t)
                &&& meets(s, t) == (plex(o.lo, o.hi) == Ordering::Less || (o.lo == o.hi && o.loi && o.hii))
                &&& seg_ok(o) ==> forall|p: P2| #![auto] seg_has(o, p) == (seg_has(s, p) && seg_has(t, p))
            }
            1 => (meets(s, t) ==> !parallel_segs(s, t)) && meets(s, t) == (t.loi && seg_test(s, t.lo)),
            2 => (meets(s, t) ==> !parallel_segs(s, t)) && meets(s, t) == (t.hii && seg_test(s, t.hi)),
            3 => (meets(s, t) ==> !parallel_segs(s, t)) && meets(s, t) == (s.loi && seg_test(t, s.lo)),
            4 => (meets(s, t) ==> !parallel_segs(s, t)) && meets(s, t) == (s.hii && seg_test(t, s.hi)),
            _ => {
                let b = opposite(cross3(s.lo, s.hi, t.lo), cross3(s.lo, s.hi, t.hi)) && opposite(cross3(t.lo, t.hi, s.lo), cross3(t.lo, t.hi, s.hi));
                meets(s, t) == b && (b ==> !parallel_segs(s, t))
            }
        }
    })
{
    membership_all(s); membership_all(t);
    let o = common(s, t);
    let c = case_of(s, t);
    if c == 0 {
        if s.lo == s.hi { cross3_sym(s.lo, s.lo, t.lo); cross3_sym(s.lo, s.lo, t.hi); }
        else { 
            if t.lo != t.hi { cross3_sym(s.lo, s.hi, s.lo); cross3_sym(s.lo, s.hi, s.hi); same_line(s.lo, s.hi, t.lo, t.hi, s.hi); }
            else { cross3_sym(t.lo, t.lo, s.hi); }
        }
        assert(colinear_segs(s, t));
        if seg_ok(o) { membership_all(o); }
        overlap_case(s, t, o, o.lo);
        assert forall|p: P2| #![auto] seg_ok(o) implies seg_has(o, p) == (seg_has(s, p) && seg_has(t, p)) by { overlap_case(s, t, o, p); }
        plex_laws(o.lo, o.hi, o.lo);
        if plex(o.lo, o.hi) == Ordering::Less {
            let x = choose|x: P2| seg_test(o, x);
            assert(seg_has(o, x) == (seg_has(s, x) && seg_has(t, x)));
        }
        assert forall|p: P2| seg_has(s, p) && seg_has(t, p) implies plex(o.lo, o.hi) == Ordering::Less || (o.lo == o.hi && o.loi && o.hii) by { overlap_case(s, t, o, p); }
        if o.lo == o.hi && o.loi && o.hii { assert(seg_has(o, o.lo) == (seg_has(s, o.lo) && seg_has(t, o.lo))); }
    } else if c == 1 {
        if s.lo == s.hi {
            cross3_sym(s.lo, s.lo, t.lo); cross3_sym(s.lo, s.lo, t.hi); cross3_sym(t.lo, t.hi, t.lo);
            assert forall|p: P2| !(seg_has(s, p) && seg_has(t, p)) by { if seg_test(s, p) { plex_laws(s.lo, p, s.hi); assert(p == s.lo); } }
            if seg_test(s, t.lo) { plex_laws(s.lo, t.lo, s.hi); assert(t.lo == s.lo); }
        } else {
            if cross3(t.lo, t.hi, s.lo) != 0real { not_all(s, t); }
            assert forall|p: P2| seg_has(s, p) && seg_has(t, p) implies p == t.lo by { touch(s, t, t.lo, p); }
            touch(s, t, t.lo, t.lo);
            if t.loi && seg_test(s, t.lo) { assert(seg_has(s, t.lo) && seg_has(t, t.lo)); }
        }
    } else if c == 2 {
        assert forall|p: P2| seg_has(s, p) && seg_has(t, p) implies p == t.hi by { touch(s, t, t.hi, p); }
        touch(s, t, t.hi, t.hi);
        if t.hii && seg_test(s, t.hi) { assert(seg_has(s, t.hi) && seg_has(t, t.hi)); }
    } else if c == 3 {
        cross3_sym(t.lo, t.lo, s.lo); cross3_sym(s.lo, s.hi, s.lo);
        if t.lo == t.hi {
            assert forall|p: P2| !(seg_has(s, p) && seg_has(t, p)) by { if seg_test(t, p) { plex_laws(t.lo, p, t.hi); assert(p == t.lo); } }
            if seg_test(t, s.lo) { plex_laws(t.lo, s.lo, t.hi); assert(t.lo == s.lo); }
        } else {
            not_all(t, s);
            assert forall|p: P2| seg_has(s, p) && seg_has(t, p) implies p == s.lo by { touch(t, s, s.lo, p); }
            touch(t, s, s.lo, s.lo); par_sym(s, t);
            if s.loi && seg_test(t, s.lo) { assert(seg_has(s, s.lo) && seg_has(t, s.lo)); }
        }
    } else if c == 4 {
        assert forall|p: P2| seg_has(s, p) && seg_has(t, p) implies p == s.hi by { touch(t, s, s.hi, p); }
        touch(t, s, s.hi, s.hi); par_sym(s, t);
        if s.hii && seg_test(t, s.hi) { assert(seg_has(s, s.hi) && seg_has(t, s.hi)); }
    } else {
        let b1 = opposite(cross3(s.lo, s.hi, t.lo), cross3(s.lo, s.hi, t.hi));
        let b2 = opposite(cross3(t.lo, t.hi, s.lo), cross3(t.lo, t.hi, s.hi));
        if b1 && b2 {
            proper_cross(s, t);
            let x = choose|x: P2| seg_test(s, x) && seg_test(t, x);
            assert(seg_has(s, x) && seg_has(t, x));
        } else {
            assert forall|p: P2| !(seg_has(s, p) && seg_has(t, p)) by {
                if seg_has(s, p) && seg_has(t, p) { if !b1 { same_side(s, t, p); } else { same_side(t, s, p); } }
            }
        }
    }
}
proof fn par_sym(s: Seg, t: Seg) ensures parallel_segs(s, t) == parallel_segs(t, s) { cross2_anti(psub(s.hi, s.lo), psub(t.hi, t.lo)); }
// if both ends of t are on line s (s not a single point) then both ends of s are on line t
proof fn not_all(s: Seg, t: Seg)
    requires cross3(t.lo, t.hi, s.lo) != 0real, s.lo != s.hi
    ensures !(cross3(s.lo, s.hi, t.lo) == 0real && cross3(s.lo, s.hi, t.hi) == 0real)
{
    cross3_sym(s.lo, s.hi, s.lo); cross3_sym(t.lo, t.lo, s.lo);
    if cross3(s.lo, s.hi, t.lo) == 0real && cross3(s.lo, s.hi, t.hi) == 0real {
        if t.lo != t.hi { same_line(s.lo, s.hi, t.lo, t.hi, s.lo); }
    }
}
pub proof fn setup<'a, T: PolygonScalar>(a: LineSegmentView<'a, T>, b: LineSegmentView<'a, T>)
    requires vord(a), vord(b)
    ensures
        seg_ok(vseg(a)), seg_ok(vseg(b)),
        forall|x: &Point<T, 2>, y: &Point<T, 2>| #[trigger] x.tcmp(y) == plex(pxy(*x), pxy(*y)),
        forall|x: P2, y: P2| (#[trigger] plex(x, y) == Ordering::Equal) == (x == y),
        forall|x: P2, y: P2| #[trigger] plex(y, x) == orev(plex(x, y)),
{
    assert forall|x: &Point<T, 2>, y: &Point<T, 2>| #[trigger] x.tcmp(y) == plex(pxy(*x), pxy(*y)) by { point_order_2d(*x, *y); }
    cases(vseg(a), vseg(b));
}
} }
