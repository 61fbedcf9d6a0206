//! C08: lines and half-lines; C09: triangles.
use crate::fw::*;
use crate::num_::*;
use crate::req;
use crate::segs::{mp, rp, Mk};
use rand::Rng;
use rgeometry::data::{DirectedEdge, DirectedEdge_, Direction, Direction_, EndPoint, HalfLineSoS, IHalfLineLineSegmentSoS, ILineLineSegmentSoS, Line, LineSegmentView, LineSoS, LineSoS_, Line_, Point, PointLocation, Triangle, TriangleView, Vector};
use rgeometry::{Intersects, Orientation};

fn o_of(x: i128) -> Orientation { match x.cmp(&0) { Ordering::Less => Orientation::ClockWise, Ordering::Equal => Orientation::CoLinear, _ => Orientation::CounterClockWise } }
/// exact answer for the half-line from o towards direction d against the segment b1 b2:
/// the crossing must be strictly ahead of the origin
fn ray_exact(o: IP, d: [i128; 2], b1: IP, b2: IP) -> Option<Orientation> {
    let (c1, c2) = (cross(d, sub(b1, o)), cross(d, sub(b2, o)));
    if c1 == 0 && c2 == 0 { return None; }
    let ahead = |p: IP| dot(d, sub(p, o)) > 0;
    if c1 == 0 { return if ahead(b1) { Some(o_of(c2)) } else { None }; }
    if c2 == 0 { return if ahead(b2) { Some(o_of(c1)) } else { None }; }
    if (c1 > 0) == (c2 > 0) { return None; }
    // crossing point b1 + c1/(c1-c2) (b2-b1); its position along d relative to o
    let (mut num, mut den) = (c1, c1 - c2);
    if den < 0 { num = -num; den = -den; }
    let e = sub(b2, b1);
    let rel = [(b1[0] as i128 - o[0] as i128) * den + num * e[0], (b1[1] as i128 - o[1] as i128) * den + num * e[1]];
    if dot(d, rel) > 0 { Some(Orientation::CoLinear) } else { None }
}
fn line_exact(o: IP, d: [i128; 2], b1: IP, b2: IP) -> bool { (cross(d, sub(b1, o)) >= 0) != (cross(d, sub(b2, o)) >= 0) }
fn lines<T: Mk>(o: IP, x: IP, b1: IP, b2: IP) -> Result<bool, String> {
    let (po, pb1, pb2) = (mp::<T>(o), mp::<T>(b1), mp::<T>(b2));
    let mut any = false;
    for dir in 0..2 {
        let d = if dir == 0 { w(x) } else { sub(x, o) };
        let vx = Vector([T::mk(x[0]), T::mk(x[1])]);
        let px = mp::<T>(x);
        let direction = if dir == 0 { Direction::Vector(&vx) } else { Direction::Through(&px) };
        let line = Line::new(&po, direction);
        let line2 = if dir == 0 { Line::new_directed(&po, &vx) } else { Line::new_through(&po, &px) };
        let ray2 = if dir == 0 { HalfLineSoS::new_directed(&po, &vx) } else { HalfLineSoS::new_through(&po, &px) };
        let ray = HalfLineSoS::new(&po, direction);
        let owned = LineSoS_::from(Line_ { origin: po.clone(), direction: if dir == 0 { Direction_::Vector(vx.clone()) } else { Direction_::Through(px.clone()) } });
        let want_r = ray_exact(o, d, b1, b2);
        let want_l = line_exact(o, d, b1, b2);
        for flip in 0..2 {
            // the order of the view's end points is the lexicographic one whatever is passed in
            let seg = if flip == 0 { LineSegmentView::new(EndPoint::Inclusive(&pb1), EndPoint::Exclusive(&pb2)) } else { LineSegmentView::new(EndPoint::Inclusive(&pb2), EndPoint::Inclusive(&pb1)) };
            let raw = if flip == 0 { LineSegmentView { min: EndPoint::Inclusive(&pb1), max: EndPoint::Exclusive(&pb2) } } else { LineSegmentView { min: EndPoint::Inclusive(&pb2), max: EndPoint::Inclusive(&pb1) } };
            for s in [seg, raw] {
                for r in [&ray, &ray2] {
                    let got = r.intersect(s).map(|IHalfLineLineSegmentSoS::Crossing(o)| o);
                    req!(got == want_r, "half-line {:?} -> {:?}: {got:?}, exactly {want_r:?}", if dir == 0 { "directed" } else { "through" }, s);
                }
                for l in [LineSoS::from(line), LineSoS::from(line2), LineSoS::from(ray), LineSoS::from(&owned)] {
                    let got = matches!(l.intersect(s), Some(ILineLineSegmentSoS::Crossing));
                    req!(got == want_l, "line: crossing {got}, exactly {want_l}");
                }
            }
            let e = if flip == 0 { DirectedEdge { src: &pb1, dst: &pb2 } } else { DirectedEdge { src: &pb2, dst: &pb1 } };
            req!((&ray).intersect(e).map(|IHalfLineLineSegmentSoS::Crossing(o)| o) == want_r, "half-line against directed edge");
            req!((&LineSoS::from(line)).intersect(e).is_some() == want_l, "line against directed edge");
        }
        let back: Line<T> = HalfLineSoS::from(LineSoS::from(line)).into();
        req!(back.origin == &po, "line conversion changed the origin");
        any |= want_r.is_some();
    }
    Ok(any)
}
/// edge of a ring: source included, destination excluded
fn edges<T: Mk>(a: IP, b: IP, c: IP, d: IP) -> Result<bool, String> {
    use crate::segs::{s_has, s_isect, R, S};
    let (pa, pb, pc, pd) = (mp::<T>(a), mp::<T>(b), mp::<T>(c), mp::<T>(d));
    let (s, t) = (S { a, ai: true, b, bi: false }, S { a: c, ai: true, b: d, bi: false });
    let e = DirectedEdge { src: &pa, dst: &pb };
    let f = DirectedEdge { src: &pc, dst: &pd };
    let want = s_isect(s, t) != R::None;
    req!(e.intersect(f).is_some() == want && f.intersect(e).is_some() == want, "directed edges intersect: {:?}, exactly {want}", e.intersect(f));
    let (oe, of) = (DirectedEdge_ { src: pa.clone(), dst: pb.clone() }, DirectedEdge_ { src: pc.clone(), dst: pd.clone() });
    req!((&oe).intersect(&of).is_some() == want, "owned directed edges intersect");
    req!(e.contains(&pc) == s_has(s, w(c), 1) && e.contains(&pd) == s_has(s, w(d), 1), "directed edge contains");
    req!(LineSegmentView::from(&oe).contains(&pc) == s_has(s, w(c), 1), "owned directed edge contains");
    req!(LineSegmentView::from(&e).contains(&pc) == s_has(s, w(c), 1), "directed edge view contains");
    let ls: rgeometry::data::LineSegment<T> = oe.into();
    req!(ls.contains(&pc) == s_has(s, w(c), 1), "owned directed edge into segment contains");
    Ok(want)
}
fn meet(a: IP, b: IP, c: IP, d: IP) -> Result<bool, String> {
    let f = |p: IP| mp::<BigRational>(p);
    let (pa, pb, pc, pd) = (f(a), f(b), f(c), f(d));
    let got = Line::new_through(&pa, &pb).intersection_point(&Line::new_through(&pc, &pd));
    let den = cross(sub(b, a), sub(d, c));
    if den == 0 { req!(got.is_none(), "parallel lines meet in {got:?}"); return Ok(false); }
    let Some(p) = got else { return Err("no intersection point although the lines are not parallel".into()) };
    req!(qcross3(&qp(a), &qp(b), &p.array) == Q::zero() && qcross3(&qp(c), &qp(d), &p.array) == Q::zero(), "intersection point {p:?} is not on both lines");
    Ok(true)
}
pub fn c08(c: &mut Ctx) {
    c.rule("half-lines, lines and ring edges against segments: all quadruples over a 3x3 grid, random quadruples (large, colinear, touching, degenerate directions, zero-length segments) for i8..i64, BigInt, BigRational, f64; line meeting points for BigRational; oracle: exact position of the crossing along the half-line; non-trivial: a crossing exists.");
    let g: Vec<IP> = (0..9).map(|i| [i / 3 - 1, i % 3 - 1]).collect();
    for &a in &g { for &b in &g { for &x in &g { for &y in &g {
        c.case("ray", &(a, b, x, y), || lines::<i8>(a, b, x, y));
        c.case("edge", &(a, b, x, y), || edges::<i32>(a, b, x, y));
        if (a[0] + b[0]) % 2 == 0 { c.case("meet", &(a, b, x, y), || meet(a, b, x, y)); }
    } } } }
    for i in 0..c.n(150_000, 1_500_000) {
        if c.saturated() || (i % 256 == 0 && !c.time_left()) { break; }
        let k = [2, 5, 60, 1_000_000_000][i as usize % 4];
        let (a, b) = (rp(c, k), rp(c, k));
        let (mut x, mut y) = (rp(c, k), rp(c, k));
        if k < 100 {
            let d = [b[0] - a[0], b[1] - a[1]];
            let f = c.rng.gen_range(-2i64..=3); let h = c.rng.gen_range(-2i64..=3);
            match c.rng.gen_range(0..5) {
                0 => x = [a[0] + f * d[0], a[1] + f * d[1]],
                1 => y = [a[0] + f * d[0], a[1] + f * d[1]],
                2 => { x = [a[0] + f * b[0], a[1] + f * b[1]]; }
                3 => { // segment through a point of the ray
                    let m = [a[0] + f * d[0], a[1] + f * d[1]]; let e = rp(c, 3); x = [m[0] - e[0], m[1] - e[1]]; y = [m[0] + h * e[0], m[1] + h * e[1]]; }
                _ => {}
            }
        }
        match i % 6 {
            0 => c.case("ray", &(a, b, x, y), || lines::<i64>(a, b, x, y)),
            1 => c.case("ray", &(a, b, x, y), || lines::<BigInt>(a, b, x, y)),
            2 => c.case("ray", &(a, b, x, y), || lines::<f64>(a, b, x, y)),
            3 => if k < 100 { c.case("edge", &(a, b, x, y), || edges::<i64>(a, b, x, y)) },
            4 => c.case("ray", &(a, b, x, y), || lines::<ordered_float::OrderedFloat<f64>>(a, b, x, y)),
            _ => c.case("meet", &(a, b, x, y), || meet(a, b, x, y)),
        }
    }
    let v = [i8::MIN as i64, -1, 0, 1, i8::MAX as i64];
    for _ in 0..c.n(15_000, 400_000) {
        if c.saturated() || !c.time_left() { break; }
        let mut z = || -> IP { [v[c.rng.gen_range(0..5)], v[c.rng.gen_range(0..5)]] };
        let (a, b, x, y) = (z(), z(), z(), z());
        c.case("ray", &(a, b, x, y), || lines::<i8>(a, b, x, y));
        c.case("edge", &(a, b, x, y), || edges::<i8>(a, b, x, y));
    }
}

// ---------------------------------------------------------------- triangles
/// strictly inside / on the boundary / outside by barycentric coordinates
pub fn tri_exact(t: [IP; 3], p: IP) -> PointLocation {
    let s = cross3(t[0], t[1], t[2]).signum();
    let b = [cross3(t[1], t[2], p) * s, cross3(t[2], t[0], p) * s, cross3(t[0], t[1], p) * s];
    if b.iter().any(|x| *x < 0) { PointLocation::Outside } else if b.iter().any(|x| *x == 0) { PointLocation::OnBoundary } else { PointLocation::Inside }
}
fn tri<T: Mk>(t: [IP; 3], p: IP) -> Result<bool, String> {
    let pts = [mp::<T>(t[0]), mp::<T>(t[1]), mp::<T>(t[2])];
    let o = o_of(cross3(t[0], t[1], t[2]));
    let pp = mp::<T>(p);
    let r = Triangle::new(pts.clone());
    req!(r.is_ok() == (o == Orientation::CounterClockWise), "Triangle::new ok = {}, orientation {o:?}", r.is_ok());
    let rv = TriangleView::new([&pts[0], &pts[1], &pts[2]]);
    req!(rv.is_ok() == (o == Orientation::CounterClockWise), "TriangleView::new ok = {}", rv.is_ok());
    let un = TriangleView::new_unchecked([&pts[0], &pts[1], &pts[2]]);
    req!(un.orientation() == o, "orientation is {:?}, exactly {o:?}", un.orientation());
    req!(un.validate().is_ok() == (o == Orientation::CounterClockWise), "validate");
    let lo = |k: usize| t.iter().map(|q| q[k]).min().unwrap();
    let hi = |k: usize| t.iter().map(|q| q[k]).max().unwrap();
    let (bl, bh) = un.bounding_box();
    req!(bl == mp::<T>([lo(0), lo(1)]) && bh == mp::<T>([hi(0), hi(1)]), "bounding box is {bl:?} {bh:?}");
    if o == Orientation::CoLinear {
        let a = may_panic(|| Triangle::new_ccw(pts.clone()).validate().is_ok());
        req!(a != Some(false), "new_ccw returned an invalid triangle");
        return Ok(false);
    }
    let want = tri_exact(t, p);
    let cc = Triangle::new_ccw(pts.clone());
    req!(cc.validate().is_ok(), "new_ccw returned an invalid triangle");
    req!(cc.locate(&pp) == want && cc.view().locate(&pp) == want, "locate (new_ccw) is {:?}, exactly {want:?}", cc.locate(&pp));
    let cv = TriangleView::new_ccw([&pts[0], &pts[1], &pts[2]]);
    req!(cv.validate().is_ok() && cv.locate(&pp) == want, "view locate (new_ccw) is {:?}, exactly {want:?}", cv.locate(&pp));
    for q in t { req!(cc.locate(&mp::<T>(q)) == PointLocation::OnBoundary, "corner {q:?} is not on the boundary of new_ccw's triangle"); }
    if let Ok(r) = r { req!(r.locate(&pp) == want && r.view().locate(&pp) == want, "locate is {:?}, exactly {want:?}", r.locate(&pp)); }
    if let Ok(r) = rv { req!(r.locate(&pp) == want, "view locate is {:?}, exactly {want:?}", r.locate(&pp)); }
    Ok(want != PointLocation::Outside)
}
fn tri_area(t: [IP; 3]) -> Result<bool, String> {
    let want = cross3(t[0], t[1], t[2]);
    let p = |q: IP| Point::new([q[0] as i32, q[1] as i32]);
    let pts = [p(t[0]), p(t[1]), p(t[2])];
    let v = TriangleView::new_unchecked([&pts[0], &pts[1], &pts[2]]);
    let a2: i64 = v.signed_area_2x();
    req!(a2 as i128 == want, "twice the signed area is {a2}, exactly {want}");
    let a: f64 = v.signed_area();
    let exact = t.iter().flatten().all(|c| c.abs() < 1 << 24);
    req!(!exact || a == want as f64 / 2.0, "signed area is {a}, exactly {}/2", want);
    let b = |q: IP| mp::<BigRational>(q);
    let q3 = [b(t[0]), b(t[1]), b(t[2])];
    let r: BigRational = TriangleView::new_unchecked([&q3[0], &q3[1], &q3[2]]).signed_area();
    req!(r == Q::new(BigInt::from(want), BigInt::from(2)), "rational signed area is {r}");
    Ok(want != 0)
}
fn tri_sample(t: [IP; 3], seed: u64) -> Result<bool, String> {
    use rand::SeedableRng;
    if cross3(t[0], t[1], t[2]) <= 0 { return Ok(false); }
    let p = |q: IP| Point::new([q[0] as i32, q[1] as i32]);
    let pts = [p(t[0]), p(t[1]), p(t[2])];
    let v = TriangleView::new([&pts[0], &pts[1], &pts[2]]).unwrap();
    let mut r = rand::rngs::SmallRng::seed_from_u64(seed);
    for _ in 0..4 {
        let s = v.rejection_sampling(&mut r);
        req!(tri_exact(t, [s.array[0] as i64, s.array[1] as i64]) != PointLocation::Outside, "sampled point {s:?} is outside");
    }
    Ok(true)
}
pub fn c09(c: &mut Ctx) {
    c.rule("all triangles over a 3x3 grid against all points of a 5x5 grid around it, random triangles and points (points placed on edges, corners, edge extensions) for i8..i64, BigInt, BigRational, f64; areas, bounding boxes, sampling; oracle: exact barycentric coordinates; non-trivial: the point is in the closed triangle / non-zero area.");
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    let h: Vec<IP> = (0..25).map(|i| [i / 5 - 1, i % 5 - 1]).collect();
    for &a in &g { for &b in &g { for &x in &g {
        c.case("area", &(a, b, x), || tri_area([a, b, x]));
        for &p in &h { c.case("locate", &(a, b, x, p), || tri::<i8>([a, b, x], p)); }
    } } }
    // slivers: hardly any draw hits
    for &w in &[10i64, 100, 1000, 100_000] {
        for (i, t) in [[[0, 0], [w, w - 1], [w, w]], [[w, 0], [0, w], [0, w - 1]], [[-w, -w], [w, w - 1], [w, w]]].into_iter().enumerate() {
            let s = i as u64 + w as u64; c.case("sample", &(t, s), || tri_sample(t, s));
        }
    }
    for i in 0..c.n(150_000, 1_500_000) {
        if c.saturated() || (i % 256 == 0 && !c.time_left()) { break; }
        let k = [3, 8, 30, 1_000_000_000][i as usize % 4];
        let t = [rp(c, k), rp(c, k), rp(c, k)];
        let mut p = rp(c, k);
        if k < 100 {
            let j = c.rng.gen_range(0..3); let (u, v) = (t[j], t[(j + 1) % 3]);
            match c.rng.gen_range(0..4) {
                0 => { let f = c.rng.gen_range(-1i64..=2); p = [u[0] + f * (v[0] - u[0]), u[1] + f * (v[1] - u[1])] }
                1 => p = [(u[0] + v[0]) / 2, (u[1] + v[1]) / 2],
                2 => p = [(t[0][0] + t[1][0] + t[2][0]) / 3, (t[0][1] + t[1][1] + t[2][1]) / 3],
                _ => {}
            }
        }
        match i % 7 {
            0 => c.case("locate", &(t, p), || tri::<i64>(t, p)),
            1 => c.case("locate", &(t, p), || tri::<BigInt>(t, p)),
            2 => c.case("locate", &(t, p), || tri::<f64>(t, p)),
            3 => c.case("locate", &(t, p), || tri::<BigRational>(t, p)),
            4 => c.case("locate", &(t, p), || tri::<i32>(t, p)),
            5 => c.case("area", &t, || tri_area(t)),
            _ => if k < 100 { c.case("sample", &(t, i), || tri_sample(t, i)) },
        }
    }
    let v = [i8::MIN as i64, -1, 0, 1, i8::MAX as i64];
    for _ in 0..c.n(20_000, 300_000) {
        if c.saturated() || !c.time_left() { break; }
        let mut z = || -> IP { [v[c.rng.gen_range(0..5)], v[c.rng.gen_range(0..5)]] };
        let (t, p) = ([z(), z(), z()], z());
        c.case("locate", &(t, p), || tri::<i8>(t, p));
    }
}
