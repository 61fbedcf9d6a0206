//! C07: line segments.  Oracle: exact integer arithmetic on the segments as point sets.
use crate::fw::*;
use crate::num_::*;
use crate::req;
use rand::Rng;
use rgeometry::data::{EndPoint, ILineSegment, LineSegment, LineSegmentView, Point};
use rgeometry::{Intersects, PolygonScalar};
use std::fmt::Debug;

/// a segment: two endpoints and whether each belongs to it
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct S { pub a: IP, pub ai: bool, pub b: IP, pub bi: bool }
pub fn s_norm(s: S) -> S { if s.a <= s.b { s } else { S { a: s.b, ai: s.bi, b: s.a, bi: s.ai } } }
/// the rational point n/d (d > 0) lies on s
pub fn s_has(s: S, n: [i128; 2], d: i128) -> bool {
    let p = |x: IP| [x[0] as i128 * d, x[1] as i128 * d];
    let (a, b) = (p(s.a), p(s.b));
    if s.a == s.b { return s.ai && s.bi && n == a; }
    if cross([b[0] - a[0], b[1] - a[1]], [n[0] - a[0], n[1] - a[1]]) != 0 { return false; }
    let t = dot([b[0] - a[0], b[1] - a[1]], [n[0] - a[0], n[1] - a[1]]);
    let l = dot([b[0] - a[0], b[1] - a[1]], [b[0] - a[0], b[1] - a[1]]);
    (0 < t || (t == 0 && s.ai)) && (t < l || (t == l && s.bi))
}
#[derive(Debug, PartialEq, Eq)]
pub enum R { None, Cross, Over(S) }
pub fn s_isect(s: S, t: S) -> R {
    let (s, t) = (s_norm(s), s_norm(t));
    let (u, v) = (sub(s.b, s.a), sub(t.b, t.a));
    let (sd, td) = (s.a == s.b, t.a == t.b);
    if !sd && !td {
        let den = cross(u, v);
        if den != 0 {
            let num = cross(sub(t.a, s.a), v);
            let (num, den) = if den < 0 { (-num, -den) } else { (num, den) };
            let p = [s.a[0] as i128 * den + u[0] * num, s.a[1] as i128 * den + u[1] * num];
            return if s_has(s, p, den) && s_has(t, p, den) { R::Cross } else { R::None };
        }
        if cross3(s.a, s.b, t.a) != 0 { return R::None; }
    } else {
        // one of them is a single point
        let p = if sd { s.a } else { t.a };
        if !(s_has(s, w(p), 1) && s_has(t, w(p), 1)) { return R::None; }
    }
    // parallel on one line: the lexicographic order is the order along it
    let (lo, li) = if s.a > t.a { (s.a, s.ai) } else if t.a > s.a { (t.a, t.ai) } else { (s.a, s.ai && t.ai) };
    let (hi, hi_i) = if s.b < t.b { (s.b, s.bi) } else if t.b < s.b { (t.b, t.bi) } else { (s.b, s.bi && t.bi) };
    if lo < hi || (lo == hi && li && hi_i) { R::Over(S { a: lo, ai: li, b: hi, bi: hi_i }) } else { R::None }
}
fn ep<T>(p: T, i: bool) -> EndPoint<T> where T: rgeometry::TotalOrd { if i { EndPoint::Inclusive(p) } else { EndPoint::Exclusive(p) } }
pub trait Mk: PolygonScalar + Debug { fn mk(i: i64) -> Self; }
macro_rules! mk { ($($t:ty),*) => { $(impl Mk for $t { fn mk(i: i64) -> Self { i as $t } })* } }
mk!(i8, i16, i32, i64, isize, f64, f32);
impl Mk for BigInt { fn mk(i: i64) -> Self { BigInt::from(i) } }
impl Mk for BigRational { fn mk(i: i64) -> Self { q(i) } }
impl Mk for ordered_float::OrderedFloat<f64> { fn mk(i: i64) -> Self { ordered_float::OrderedFloat(i as f64) } }
impl Mk for ordered_float::NotNan<f64> { fn mk(i: i64) -> Self { ordered_float::NotNan::new(i as f64).unwrap() } }
pub fn mp<T: Mk>(p: IP) -> Point<T, 2> { Point::new([T::mk(p[0]), T::mk(p[1])]) }

fn same<T: Mk>(want: &R, got: &Option<ILineSegment<'_, T>>) -> bool {
    match (want, got) {
        (R::None, None) => true,
        (R::Cross, Some(ILineSegment::Crossing)) => true,
        (R::Over(s), Some(ILineSegment::Overlap(v))) => *v.min.inner() == &mp::<T>(s.a) && *v.max.inner() == &mp::<T>(s.b) && v.min.is_inclusive() == s.ai && v.max.is_inclusive() == s.bi
            && v.min.is_exclusive() != s.ai && v.max.is_exclusive() != s.bi,
        // a proper segment and one point of it: touching in a point may be reported either way
        _ => false,
    }
}
/// coordinates scaled by sc (the exact answer scales along)
fn pair_scaled<T: Mk>(s: S, t: S, sc: i64) -> Result<bool, String> {
    let want = s_isect(s, t);
    let m = |p: IP| [p[0] * sc, p[1] * sc];
    let want = match want { R::Over(s) => R::Over(S { a: m(s.a), b: m(s.b), ..s }), o => o };
    pair_want::<T>(S { a: m(s.a), b: m(s.b), ..s }, S { a: m(t.a), b: m(t.b), ..t }, want)
}
fn pair<T: Mk>(s: S, t: S) -> Result<bool, String> { pair_scaled::<T>(s, t, 1) }
fn pair_want<T: Mk>(s: S, t: S, want: R) -> Result<bool, String> {
    let l1 = LineSegment::new(ep(mp::<T>(s.a), s.ai), ep(mp::<T>(s.b), s.bi));
    let l2 = LineSegment::new(ep(mp::<T>(t.a), t.ai), ep(mp::<T>(t.b), t.bi));
    let r = l1.intersect(&l2);
    req!(same(&want, &r), "intersect is {r:?}, exactly {want:?}");
    let r2 = l2.intersect(&l1);
    req!(same(&want, &r2), "intersect (swapped) is {r2:?}, exactly {want:?}");
    let (pa, pb, pc, pd) = (mp::<T>(s.a), mp::<T>(s.b), mp::<T>(t.a), mp::<T>(t.b));
    let v1 = LineSegmentView::new(ep(&pb, s.bi), ep(&pa, s.ai));
    let v2 = LineSegmentView::new(ep(&pd, t.bi), ep(&pc, t.ai));
    let r3 = v1.intersect(v2);
    req!(same(&want, &r3) || (s.a == s.b) || (t.a == t.b), "intersect of reversed views is {r3:?}, exactly {want:?}");
    if s.ai && s.bi && t.ai && t.bi {
        let (x, y) = (pa.clone()..=pb.clone(), pc.clone()..=pd.clone());
        let r = (&x).intersect(&y);
        req!(same(&want, &r), "intersect of closed ranges is {r:?}, exactly {want:?}");
    }
    if s.ai && !s.bi && t.ai && !t.bi {
        let (x, y) = (pa.clone()..pb.clone(), pc.clone()..pd.clone());
        let r = (&x).intersect(&y);
        req!(same(&want, &r), "intersect of half-open ranges is {r:?}, exactly {want:?}");
        let (x, y): (LineSegment<T>, LineSegment<T>) = ((T::mk(s.a[0]), T::mk(s.a[1]))..(T::mk(s.b[0]), T::mk(s.b[1])), (T::mk(t.a[0]), T::mk(t.a[1]))..(T::mk(t.b[0]), T::mk(t.b[1]))).map_both();
        let r = x.intersect(&y);
        req!(same(&want, &r), "intersect of tuple ranges is {r:?}, exactly {want:?}");
    }
    Ok(want != R::None)
}
trait MapBoth { type O; fn map_both(self) -> Self::O; }
impl<T: PolygonScalar> MapBoth for (std::ops::Range<(T, T)>, std::ops::Range<(T, T)>) { type O = (LineSegment<T>, LineSegment<T>); fn map_both(self) -> Self::O { (self.0.into(), self.1.into()) } }
fn contains<T: Mk>(s: S, p: IP) -> Result<bool, String> {
    let l = LineSegment::new(ep(mp::<T>(s.a), s.ai), ep(mp::<T>(s.b), s.bi));
    let want = s_has(s, w(p), 1);
    let q = mp::<T>(p);
    req!(l.contains(&q) == want, "contains is {}, exactly {want}", l.contains(&q));
    req!(l.as_ref().contains(&q) == want, "view contains is {}, exactly {want}", l.as_ref().contains(&q));
    req!(LineSegmentView::from(&l).contains(&q) == want, "view contains");
    let (a, b) = (mp::<T>(s.a), mp::<T>(s.b));
    if s.ai && !s.bi {
        let l2: LineSegment<T> = (a.clone()..b.clone()).into();
        req!(l2.contains(&q) == want, "half-open range contains");
        req!(LineSegmentView::from(&(a.clone()..b.clone())).contains(&q) == want, "half-open range view contains");
        req!(LineSegmentView::from(&a..&b).contains(&q) == want, "half-open range of references contains");
    }
    if s.ai && s.bi {
        let l2: LineSegment<T> = (a.clone()..=b.clone()).into();
        req!(l2.contains(&q) == want, "closed range contains");
        req!(LineSegmentView::from(&(a..=b)).contains(&q) == want, "closed range view contains");
    }
    Ok(want)
}
fn endpoints(x: i64, xi: bool, y: i64, yi: bool) -> Result<bool, String> {
    let (p, r) = (mp::<i64>([x, 0]), mp::<i64>([y, 0]));
    let (e, f) = (ep(p, xi), ep(r, yi));
    req!(*e.inner() == p && e.take() == p && *e.as_ref().take() == p && e.is_inclusive() == xi && e.is_exclusive() == !xi && e.as_ref().is_inclusive() == xi, "end point accessors");
    let l = e.leftmost(f); let m = e.rightmost(f);
    // leftmost: the end of both sets {z < or <= end}; rightmost: the start of both sets {z > or >= start}
    for z2 in (2 * x.min(y) - 3)..=(2 * x.max(y) + 3) {
        let le = |k: i64, i: bool| z2 < 2 * k || (z2 == 2 * k && i);
        let ge = |k: i64, i: bool| z2 > 2 * k || (z2 == 2 * k && i);
        req!(le(l.inner().array[0], l.is_inclusive()) == (le(x, xi) && le(y, yi)), "leftmost is {l:?}");
        req!(ge(m.inner().array[0], m.is_inclusive()) == (ge(x, xi) && ge(y, yi)), "rightmost is {m:?}");
    }
    Ok(x == y)
}
pub fn rp(c: &mut Ctx, k: i64) -> IP { [c.rng.gen_range(-k..=k), c.rng.gen_range(-k..=k)] }
fn rs(c: &mut Ctx, k: i64) -> S { let (a, b) = (rp(c, k), rp(c, k)); S { a, ai: c.rng.gen(), b, bi: c.rng.gen() } }
pub fn c07(c: &mut Ctx) {
    c.rule("all pairs of segments over a 3x3 grid with closed ends, all pairs over a 2x3 grid with every combination of open and closed ends, random pairs over small and large grids (touching, overlapping, colinear, zero-length), contains on grid points, endpoint joins; types i8..i64, BigInt, BigRational, f64, OrderedFloat, NotNan; oracle: exact intersection of point sets; non-trivial: non-empty result.");
    for x in 0..3 { for y in 0..3 { for m in 0..4 { c.case("endpoint", &(x, y, m), || endpoints(x, m & 1 == 1, y, m & 2 == 2)); } } }
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    for &a in &g { for &b in &g { for &x in &g { for &y in &g {
        let (s, t) = (S { a, ai: true, b, bi: true }, S { a: x, ai: true, b: y, bi: true });
        c.case("intersect", &(s, t), || pair::<i8>(s, t));
    } } } }
    for &a in &g { for &b in &g { for m in 0..4 { for &p in &g { let s = S { a, ai: m & 1 == 1, b, bi: m & 2 == 2 }; c.case("contains", &(s, p), || contains::<i64>(s, p)); } } } }
    let h: Vec<IP> = (0..6).map(|i| [i / 3, i % 3]).collect();
    for &a in &h { for &b in &h { for &x in &h { for &y in &h { for m in 0..16 {
        let (s, t) = (S { a, ai: m & 1 == 1, b, bi: m & 2 == 2 }, S { a: x, ai: m & 4 == 4, b: y, bi: m & 8 == 8 });
        c.case("intersect", &(s, t), || pair::<i32>(s, t));
    } } } } }
    let n = c.n(500_000, 2_000_000);
    for i in 0..n {
        if c.saturated() || (i % 256 == 0 && !c.time_left()) { break; }
        let k = [2, 4, 8, 100][i as usize % 4];
        let s = rs(c, k); let mut t = rs(c, k);
        match c.rng.gen_range(0..6) {
            // put an endpoint of t on the line through s
            0 => { let f = c.rng.gen_range(-2i64..=3); t.a = [s.a[0] + f * (s.b[0] - s.a[0]), s.a[1] + f * (s.b[1] - s.a[1])]; }
            1 => { let (f, h) = (c.rng.gen_range(-2i64..=3), c.rng.gen_range(-2i64..=3)); let d = sub(s.b, s.a); t.a = [s.a[0] + f * d[0] as i64, s.a[1] + f * d[1] as i64]; t.b = [s.a[0] + h * d[0] as i64, s.a[1] + h * d[1] as i64]; }
            2 => { t.b = s.a }
            _ => {}
        }
        match i % 7 {
            0 => c.case("intersect", &(s, t), || pair::<i64>(s, t)),
            1 => c.case("intersect", &(s, t), || pair::<BigInt>(s, t)),
            2 => c.case("intersect", &(s, t), || pair::<f64>(s, t)),
            3 => c.case("intersect", &(s, t), || pair::<i16>(s, t)),
            4 => c.case("intersect", &(s, t), || pair::<ordered_float::NotNan<f64>>(s, t)),
            5 => { let sc = c.rng.gen_range(1..i64::MAX / 400); if k < 100 { c.case("intersect", &(s, t, sc), || pair_scaled::<i64>(s, t, sc)) } }
            _ => { let p = t.a; c.case("contains", &(s, p), || contains::<BigRational>(s, p)) }
        }
    }
    // the corners of i8
    let v = [i8::MIN as i64, -1, 0, 1, i8::MAX as i64];
    for _ in 0..c.n(200_000, 400_000) {
        if c.saturated() || !c.time_left() { break; }
        let mut z = || v[c.rng.gen_range(0..5)];
        let (s, t) = (S { a: [z(), z()], ai: true, b: [z(), z()], bi: false }, S { a: [z(), z()], ai: true, b: [z(), z()], bi: true });
        c.case("intersect", &(s, t), || pair::<i8>(s, t));
        c.case("contains", &(s, t.a), || contains::<i8>(s, t.a));
    }
}
