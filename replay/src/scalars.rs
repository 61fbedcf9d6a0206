//! C01..C05: scalar predicates, orientation algebra, angular order.
use crate::fw::*;
use crate::num_::*;
use crate::req;
use num_traits::FromPrimitive;
use ordered_float::{NotNan, OrderedFloat};
use rand::Rng;
use rgeometry::data::{Direction, Point, Vector};
use rgeometry::{Orientation, PolygonScalar, SoS};
use std::fmt::Debug;
use std::hash::Hash;

fn o_of(o: Ordering) -> Orientation {
    match o { Ordering::Less => Orientation::ClockWise, Ordering::Equal => Orientation::CoLinear, Ordering::Greater => Orientation::CounterClockWise }
}
fn pt<T>(a: [T; 2]) -> Point<T, 2> { Point::new(a) }

/// every predicate of one scalar type on one triple against exact rationals
fn preds<T: PolygonScalar>(a: &[T; 2], b: &[T; 2], c: &[T; 2], qa: &QP, qb: &QP, qc: &QP) -> Result<bool, String> {
    let s = sgn(&qcross3(qa, qb, qc));
    req!(T::cmp_slope(a, b, c) == s, "cmp_slope is {:?}, exact sign {:?}", T::cmp_slope(a, b, c), s);
    req!(Orientation::new(a, b, c) == o_of(s), "orientation {:?} vs exact {:?}", Orientation::new(a, b, c), o_of(s));
    // vector a, points b c
    let d = qsub(qc, qb);
    let v = sgn(&qcross(qa, &d));
    req!(T::cmp_vector_slope(a, b, c) == v, "cmp_vector_slope is {:?}, exact sign {:?}", T::cmp_vector_slope(a, b, c), v);
    req!(Orientation::along_vector(b, &Vector(a.clone()), c) == o_of(v), "along_vector {:?} vs exact {:?}", Orientation::along_vector(b, &Vector(a.clone()), c), v);
    let pv = sgn(&qcross(&[-qa[1].clone(), qa[0].clone()], &d));
    req!(T::cmp_perp_vector_slope(a, b, c) == pv, "cmp_perp_vector_slope is {:?}, exact sign {:?}", T::cmp_perp_vector_slope(a, b, c), pv);
    req!(Orientation::along_perp_vector(b, &Vector(a.clone()), c) == o_of(pv), "along_perp_vector {:?} vs exact {:?}", Orientation::along_perp_vector(b, &Vector(a.clone()), c), pv);
    let (pa, pb, pc) = (pt(a.clone()), pt(b.clone()), pt(c.clone()));
    req!(Point::orient(&pa, &pb, &pc) == o_of(s), "Point::orient {:?} vs {:?}", Point::orient(&pa, &pb, &pc), s);
    req!(Point::orient_along_direction(&pa, Direction::Through(&pb), &pc) == o_of(s), "orient_along_direction(Through)");
    req!(Point::orient_along_direction(&pb, Direction::Vector(&Vector(a.clone())), &pc) == o_of(v), "orient_along_direction(Vector)");
    req!(Point::orient_along_vector(&pb, &Vector(a.clone()), &pc) == o_of(v), "orient_along_vector");
    req!(Point::orient_along_perp_vector(&pb, &Vector(a.clone()), &pc) == o_of(pv), "orient_along_perp_vector");
    Ok(qa != qb && qb != qc && qa != qc)
}
fn dists<T: PolygonScalar>(a: &[T; 2], b: &[T; 2], c: &[T; 2], qa: &QP, qb: &QP, qc: &QP) -> Result<bool, String> {
    let s = qdist2(qa, qb).cmp(&qdist2(qa, qc));
    req!(T::cmp_dist(a, b, c) == s, "cmp_dist is {:?}, exact {:?}", T::cmp_dist(a, b, c), s);
    let (pa, pb, pc) = (pt(a.clone()), pt(b.clone()), pt(c.clone()));
    req!(pa.cmp_distance_to(&pb, &pc) == s, "cmp_distance_to is {:?}, exact {:?}", pa.cmp_distance_to(&pb, &pc), s);
    Ok(qb != qc)
}
fn small_dists<T: PolygonScalar>(v: [i128; 6], a: [T; 2], b: [T; 2], c: [T; 2]) -> Result<bool, String> {
    let d = |x: i128, y: i128| (v[0] - x) * (v[0] - x) + (v[1] - y) * (v[1] - y);
    let s = d(v[2], v[3]).cmp(&d(v[4], v[5]));
    req!(T::cmp_dist(&a, &b, &c) == s, "cmp_dist is {:?}, exact {:?}", T::cmp_dist(&a, &b, &c), s);
    Ok(s != Ordering::Equal)
}
/// i128 version for types up to 32 bits
fn small<T: PolygonScalar>(v: [i128; 6], a: [T; 2], b: [T; 2], c: [T; 2]) -> Result<bool, String> {
    let s = ((v[2] - v[0]) * (v[5] - v[1]) - (v[3] - v[1]) * (v[4] - v[0])).cmp(&0);
    req!(T::cmp_slope(&a, &b, &c) == s, "cmp_slope is {:?}, exact sign {:?}", T::cmp_slope(&a, &b, &c), s);
    let d = [v[4] - v[2], v[5] - v[3]];
    let vs = (v[0] * d[1] - v[1] * d[0]).cmp(&0);
    req!(T::cmp_vector_slope(&a, &b, &c) == vs, "cmp_vector_slope is {:?}, exact sign {:?}", T::cmp_vector_slope(&a, &b, &c), vs);
    let ps = (-v[1] * d[1] - v[0] * d[0]).cmp(&0);
    req!(T::cmp_perp_vector_slope(&a, &b, &c) == ps, "cmp_perp_vector_slope is {:?}, exact sign {:?}", T::cmp_perp_vector_slope(&a, &b, &c), ps);
    Ok(s != Ordering::Equal)
}

macro_rules! fixed_block {
    ($c:expr, $ty:ty, $name:expr, $fsmall:expr, $fbig:expr) => {{
        let ty = $name;
        let vals: Vec<$ty> = vec![<$ty>::MIN, <$ty>::MIN + 1, -1, 0, 1, <$ty>::MAX - 1, <$ty>::MAX];
        let small_ty = std::mem::size_of::<$ty>() <= 4;
        // full grid of boundary values (128-bit oracle where it cannot overflow)
        let k = vals.len();
        let total = k.pow(6);
        let step = if small_ty || $c.thorough { 1 } else { 3 };
        let mut i = 0usize;
        $c.phase(0.5);
        while i < total && !$c.saturated() && (i % 1024 != 0 || $c.time_left()) {
            let mut j = i;
            let mut v = [0 as $ty; 6];
            for x in v.iter_mut() { *x = vals[j % k]; j /= k; }
            let (a, b, c) = ([v[0], v[1]], [v[2], v[3]], [v[4], v[5]]);
            let w: [i128; 6] = [v[0] as i128, v[1] as i128, v[2] as i128, v[3] as i128, v[4] as i128, v[5] as i128];
            if small_ty { $c.case(&format!("{ty}"), &v, || $fsmall(w, a, b, c)); }
            else {
                let qv = |x: $ty, y: $ty| -> QP { [Q::from_integer(BigInt::from(x)), Q::from_integer(BigInt::from(y))] };
                let (qa, qb, qc) = (qv(a[0], a[1]), qv(b[0], b[1]), qv(c[0], c[1]));
                $c.case(&format!("{ty}"), &v, || $fbig(&a, &b, &c, &qa, &qb, &qc));
            }
            i += step;
        }
        // random, mixing magnitudes and near-colinear triples
        let n = $c.n(6_000, 200_000);
        for _ in 0..n {
            if $c.saturated() { break; }
            let mut v = [0 as $ty; 6];
            let mode = $c.rng.gen_range(0..4);
            for x in v.iter_mut() {
                *x = match mode { 0 => $c.rng.gen(), 1 => $c.rng.gen_range(-6i8..=6) as $ty,
                    2 => vals[$c.rng.gen_range(0..k)],
                    _ => { let s = $c.rng.gen_range(0..(std::mem::size_of::<$ty>() * 8 - 1)); ($c.rng.gen::<$ty>()) >> s } };
            }
            if mode == 3 && $c.rng.gen() {
                // c near the line a b
                let t = $c.rng.gen_range(-3i8..=3) as $ty;
                let dx = v[2].wrapping_sub(v[0]); let dy = v[3].wrapping_sub(v[1]);
                v[4] = v[0].wrapping_add(dx.wrapping_mul(t)).wrapping_add($c.rng.gen_range(-1i8..=1) as $ty);
                v[5] = v[1].wrapping_add(dy.wrapping_mul(t)).wrapping_add($c.rng.gen_range(-1i8..=1) as $ty);
            }
            let (a, b, c) = ([v[0], v[1]], [v[2], v[3]], [v[4], v[5]]);
            let qv = |x: $ty, y: $ty| -> QP { [Q::from_integer(BigInt::from(x)), Q::from_integer(BigInt::from(y))] };
            let (qa, qb, qc) = (qv(a[0], a[1]), qv(b[0], b[1]), qv(c[0], c[1]));
            $c.case(&format!("{ty}"), &v, || $fbig(&a, &b, &c, &qa, &qb, &qc));
        }
    }};
}

pub fn c01(c: &mut Ctx) {
    c.rule("each fixed-width integer type: the grid of {MIN,MIN+1,-1,0,1,MAX-1,MAX}^6 and random sextuples over the full width; oracle: exact big-integer determinants; non-trivial: three distinct points / non-zero determinant.");
    fixed_block!(c, i8, "i8", small, preds);
    fixed_block!(c, i16, "i16", small, preds);
    fixed_block!(c, i32, "i32", small, preds);
    fixed_block!(c, i64, "i64", small, preds);
    fixed_block!(c, isize, "isize", small, preds);
}
pub fn c02(c: &mut Ctx) {
    c.rule("each fixed-width integer type: the grid of {MIN,MIN+1,-1,0,1,MAX-1,MAX}^6 and random sextuples over the full width; oracle: exact squared distances; non-trivial: the two compared points differ.");
    fixed_block!(c, i8, "i8", small_dists, dists);
    fixed_block!(c, i16, "i16", small_dists, dists);
    fixed_block!(c, i32, "i32", small_dists, dists);
    fixed_block!(c, i64, "i64", small_dists, dists);
    fixed_block!(c, isize, "isize", small_dists, dists);
}

fn both<T: PolygonScalar>(a: &[T; 2], b: &[T; 2], c: &[T; 2], qs: &[QP; 3]) -> Result<bool, String> {
    preds(a, b, c, &qs[0], &qs[1], &qs[2])?;
    dists(a, b, c, &qs[0], &qs[1], &qs[2])?;
    for k in [-128i8, -1, 0, 1, 127] {
        let z = T::from_constant(k);
        req!(z.total_cmp(&T::from_constant(k)).is_eq(), "from_constant({k})");
        if k > -128 { req!(T::from_constant(k - 1).total_cmp(&z).is_lt(), "from_constant not increasing at {k}"); }
    }
    for i in 0..2 {
        req!(a[i].total_cmp(&b[i]) == qs[0][i].cmp(&qs[1][i]), "total_cmp {:?} {:?}", a[i], b[i]);
        req!(a[i].partial_cmp(&b[i]) == Some(qs[0][i].cmp(&qs[1][i])), "partial_cmp {:?} {:?}", a[i], b[i]);
    }
    Ok(true)
}
fn fq(f: f64) -> Q { Q::from_f64(f).unwrap() }
fn fq32(f: f32) -> Q { Q::from_f32(f).unwrap() }

pub fn c03(c: &mut Ctx) {
    c.rule("BigInt, BigRational, f64, f32 and their OrderedFloat/NotNan wrappers on random finite values (small integers, near-colinear, up to 2^60, dyadic fractions; products stay inside the exponent range); oracle: exact rational arithmetic.");
    let n = c.n(9_000, 300_000);
    for _ in 0..n {
        if !c.time_left() { break; }
        let mode = c.rng.gen_range(0..5);
        let mut f = [0f64; 6];
        for x in f.iter_mut() {
            *x = match mode {
                0 => c.rng.gen_range(-5i32..=5) as f64,
                1 => c.rng.gen_range(-1i64 << 60..1i64 << 60) as f64,
                2 => c.rng.gen_range(-1000i32..1000) as f64 / 8.0,
                3 => c.rng.gen_range(-1.0f64..1.0),
                _ => { let e = c.rng.gen_range(-40..40); (c.rng.gen_range(-1.0f64..1.0)) * 2f64.powi(e) }
            };
        }
        if c.rng.gen_bool(0.4) {
            let t = c.rng.gen_range(-2i32..=3) as f64 / 2.0;
            f[4] = f[0] + (f[2] - f[0]) * t; f[5] = f[1] + (f[3] - f[1]) * t;
            if c.rng.gen() { f[4] = f64::from_bits(f[4].to_bits().wrapping_add(c.rng.gen_range(0..2))); }
        }
        for x in f.iter_mut() { if *x == 0.0 || !x.is_finite() { *x = 0.0; } }
        let g: Vec<f32> = f.iter().map(|x| { let y = *x as f32; if y == 0.0 { 0.0 } else { y } }).collect();
        let qs: [QP; 3] = [[fq(f[0]), fq(f[1])], [fq(f[2]), fq(f[3])], [fq(f[4]), fq(f[5])]];
        let gs: [QP; 3] = [[fq32(g[0]), fq32(g[1])], [fq32(g[2]), fq32(g[3])], [fq32(g[4]), fq32(g[5])]];
        let id: Vec<OrderedFloat<f64>> = f.iter().map(|x| OrderedFloat(*x)).collect();
        c.case("f64", &id, || both(&[f[0], f[1]], &[f[2], f[3]], &[f[4], f[5]], &qs));
        c.case("f32", &id, || both(&[g[0], g[1]], &[g[2], g[3]], &[g[4], g[5]], &gs));
        let o: Vec<OrderedFloat<f64>> = id.clone();
        c.case("OrderedFloat<f64>", &id, || both(&[o[0], o[1]], &[o[2], o[3]], &[o[4], o[5]], &qs));
        let o: Vec<NotNan<f64>> = f.iter().map(|x| NotNan::new(*x).unwrap()).collect();
        c.case("NotNan<f64>", &id, || both(&[o[0], o[1]], &[o[2], o[3]], &[o[4], o[5]], &qs));
        let o: Vec<OrderedFloat<f32>> = g.iter().map(|x| OrderedFloat(*x)).collect();
        c.case("OrderedFloat<f32>", &id, || both(&[o[0], o[1]], &[o[2], o[3]], &[o[4], o[5]], &gs));
        let o: Vec<NotNan<f32>> = g.iter().map(|x| NotNan::new(*x).unwrap()).collect();
        c.case("NotNan<f32>", &id, || both(&[o[0], o[1]], &[o[2], o[3]], &[o[4], o[5]], &gs));
        let o: Vec<Q> = qs.iter().flat_map(|p| p.to_vec()).collect();
        let x = |i: usize| [o[i].clone(), o[i + 1].clone()];
        c.case("BigRational", &id, || both(&x(0), &x(2), &x(4), &qs));
        let o: Vec<BigInt> = o.iter().map(|r| r.floor().to_integer()).collect();
        let x = |i: usize| [o[i].clone(), o[i + 1].clone()];
        let r = |i: usize| -> QP { [Q::from_integer(o[i].clone()), Q::from_integer(o[i + 1].clone())] };
        let is = [r(0), r(2), r(4)];
        c.case("BigInt", &id, || both(&x(0), &x(2), &x(4), &is));
    }
}

pub fn c04(c: &mut Ctx) {
    c.rule("exhaustive triples of points on a 4x4 grid and random i64 triples (symmetries of orientation); all ordered triples of distinct indices below 10 plus u32 boundary indices (tie-break agrees with points on a convex curve); every pair for then/reverse/sos; non-trivial: non-colinear.");
    use Orientation::*;
    let all = [CounterClockWise, ClockWise, CoLinear];
    for a in all { for b in all {
        c.case("then", &format!("{a:?}.then({b:?})"), || { req!(a.then(b) == if a == CoLinear { b } else { a }, "then gives {:?}", a.then(b)); Ok(true) });
    } }
    for a in all {
        c.case("algebra", &format!("{a:?}"), || {
            req!(a.reverse().reverse() == a && (a.reverse() == a) == (a == CoLinear), "reverse {:?}", a.reverse());
            req!(a.is_ccw() == (a == CounterClockWise) && a.is_cw() == (a == ClockWise) && a.is_colinear() == (a == CoLinear), "is_*");
            for s in [SoS::CounterClockWise, SoS::ClockWise] {
                let e = match a { CounterClockWise => SoS::CounterClockWise, ClockWise => SoS::ClockWise, CoLinear => s };
                req!(a.sos(s) == e, "sos({s:?}) gives {:?}", a.sos(s));
                req!(s.reverse() != s && s.reverse().reverse() == s, "SoS::reverse");
                req!(s.orient() == if s == SoS::CounterClockWise { CounterClockWise } else { ClockWise }, "SoS::orient");
            }
            Ok(true)
        });
    }
    let mut ix: Vec<u32> = (0..10).collect();
    ix.extend([u32::MAX, u32::MAX - 1, u32::MAX / 2, u32::MAX / 2 + 1]);
    for &i in &ix { for &j in &ix { for &k in &ix { if i != j && j != k && i != k {
        c.case("tiebreak", &(i, j, k), || {
            let f = |x: u32| [BigInt::from(x), BigInt::from(x) * BigInt::from(x)];
            let e = Orientation::new(&f(i), &f(j), &f(k));
            req!(SoS::new(i, j, k).orient() == e, "SoS::new gives {:?}, points on a convex curve turn {:?}", SoS::new(i, j, k), e);
            for a in all { let x = a.break_ties(i, j, k); req!(x.orient() == a.then(e), "break_ties of {a:?} gives {x:?}"); }
            Ok(true)
        });
    } } } }
    let sym = |a: [i64; 2], b: [i64; 2], d: [i64; 2]| -> Result<bool, String> {
        let o = Orientation::new(&a, &b, &d);
        req!(Orientation::new(&b, &d, &a) == o && Orientation::new(&d, &a, &b) == o, "not rotation invariant");
        req!(Orientation::new(&b, &a, &d) == o.reverse() && Orientation::new(&a, &d, &b) == o.reverse() && Orientation::new(&d, &b, &a) == o.reverse(), "swap does not reverse");
        Ok(o != CoLinear)
    };
    let g: Vec<[i64; 2]> = (0..16).map(|i| [i % 4, i / 4]).collect();
    for &a in &g { for &b in &g { for &d in &g { c.case("symmetry", &(a, b, d), || sym(a, b, d)); } } }
    for _ in 0..c.n(20_000, 400_000) {
        let v: [i64; 6] = if c.rng.gen() { c.rng.gen() } else { let mut v = [0; 6]; for x in v.iter_mut() { *x = c.rng.gen_range(-9..9); } v };
        c.case("symmetry", &v, || sym([v[0], v[1]], [v[2], v[3]], [v[4], v[5]]));
    }
    // all_colinear
    for _ in 0..c.n(4_000, 100_000) {
        let n = c.rng.gen_range(0..6);
        let m = c.rng.gen_range(1..4);
        let pts: Vec<IP> = (0..n).map(|_| [c.rng.gen_range(0..=m), c.rng.gen_range(0..=m)]).collect();
        c.case("all_colinear", &pts, || {
            let e = pts.iter().all(|a| pts.iter().all(|b| pts.iter().all(|d| cross3(*a, *b, *d) == 0)));
            let ps: Vec<Point<i64, 2>> = pts.iter().map(|p| Point::new(*p)).collect();
            req!(Point::all_colinear(&ps) == e, "all_colinear gives {}, exact {}", !e, e);
            Ok(n > 2)
        });
    }
}

/// exact angular class and order
pub fn aclass(z: [i128; 2], d: [i128; 2]) -> i32 {
    let c = cross(z, d);
    if c > 0 { 1 } else if c < 0 { 3 } else if dot(z, d) >= 0 { 0 } else { 2 }
}
pub fn acmp(z: [i128; 2], a: [i128; 2], b: [i128; 2]) -> Ordering {
    let (x, y) = (aclass(z, a), aclass(z, b));
    if x != y { return x.cmp(&y); }
    if x == 1 || x == 3 { 0i128.cmp(&cross(a, b)) } else { Ordering::Equal }
}
fn ang<T: PolygonScalar + Debug + Hash>(z: IP, o: IP, p: IP, q_: IP, f: impl Fn(i64) -> T) -> Result<bool, String> {
    let m = |p: IP| Point::new([f(p[0]), f(p[1])]);
    let zv = Vector([f(z[0]), f(z[1])]);
    let e = acmp(w(z), sub(p, o), sub(q_, o));
    let g = m(o).ccw_cmp_around_with(&zv, &m(p), &m(q_));
    req!(g == e, "ccw_cmp_around_with gives {g:?}, angular order {e:?}");
    let g = Orientation::ccw_cmp_around_with(&zv, &m(o).array, &m(p).array, &m(q_).array);
    req!(g == e, "Orientation::ccw_cmp_around_with gives {g:?}, angular order {e:?}");
    let e1 = acmp([1, 0], sub(p, o), sub(q_, o));
    let g = m(o).ccw_cmp_around(&m(p), &m(q_));
    req!(g == e1, "ccw_cmp_around gives {g:?}, angular order {e1:?}");
    Ok(p != q_ && p != o && q_ != o)
}
fn along(v: IP, p: IP, q_: IP) -> Result<bool, String> {
    let e = dot(w(v), w(p)).cmp(&dot(w(v), w(q_)));
    let m = |p: IP| Point::new(p);
    let g = Vector(v).cmp_along(&m(p), &m(q_));
    req!(g == e, "cmp_along gives {g:?}, dot products compare {e:?}");
    let e = acmp([1, 0], w(p), w(q_));
    let g = Vector([7, 7]).ccw_cmp_around(&Vector(p), &Vector(q_));
    let e7 = acmp([1, 0], sub(p, [7, 7]), sub(q_, [7, 7]));
    req!(g == e7, "Vector::ccw_cmp_around gives {g:?}, angular order {e7:?} ({e:?})");
    let zz = acmp(w(v), sub(p, [7, 7]), sub(q_, [7, 7]));
    let g = Vector([7, 7]).ccw_cmp_around_with(&Vector(v), &Vector(p), &Vector(q_));
    req!(g == zz, "Vector::ccw_cmp_around_with gives {g:?}, angular order {zz:?}");
    Ok(p != q_)
}
pub fn c05(c: &mut Ctx) {
    c.rule("exhaustive: reference directions in {-2..2}^2, point pairs around the origin in {-2..2}^2; random with full-range i8/i64 coordinates; sorting a random set around a point gives non-decreasing angle; oracle: exact half-plane class and cross product; non-trivial: distinct points, none at the origin.");
    let g: Vec<IP> = (0..25).map(|i| [i % 5 - 2, i / 5 - 2]).collect();
    for &z in &g { for &p in &g { for &q_ in &g { c.case("grid", &(z, p, q_), || ang(z, [0, 0], p, q_, |x| x)); } } }
    for _ in 0..c.n(30_000, 800_000) {
        if c.saturated() { break; }
        let r: [i8; 8] = c.rng.gen();
        let v: Vec<i64> = r.iter().map(|x| *x as i64).collect();
        let s = c.rng.gen_range(0..6);
        let v: Vec<i64> = v.iter().map(|x| x >> s).collect();
        c.case("i8", &v, || ang([v[0], v[1]], [v[2], v[3]], [v[4], v[5]], [v[6], v[7]], |x| x as i8));
        let v: Vec<i64> = (0..8).map(|_| c.rng.gen::<i64>() >> (s * 10)).collect();
        c.case("i64", &v, || ang([v[0] >> 2, v[1] >> 2], [v[2] >> 2, v[3] >> 2], [v[4] >> 2, v[5] >> 2], [v[6] >> 2, v[7] >> 2], |x| x));
    }
    for &z in &g { for &p in &g { for &q_ in &g { c.case("along", &(z, p, q_), || along(z, p, q_)); } } }
    for _ in 0..c.n(3_000, 60_000) {
        let n = c.rng.gen_range(0..12);
        let pts: Vec<IP> = (0..n).map(|_| [c.rng.gen_range(-4..=4), c.rng.gen_range(-4..=4)]).collect();
        let o: IP = [c.rng.gen_range(-2..=2), c.rng.gen_range(-2..=2)];
        c.case("sort_around", &(o, &pts), || {
            let mut v: Vec<Vector<i64, 2>> = pts.iter().map(|p| Vector(*p)).collect();
            Vector::sort_around(&mut v);
            let o = [1, 0];
            let s: Vec<IP> = v.iter().map(|p| p.0).collect();
            for i in 1..s.len() { req!(acmp(w(o), w(s[i - 1]), w(s[i])) != Ordering::Greater, "sort_around puts {:?} before {:?}", s[i - 1], s[i]); }
            let (mut x, mut y) = (s.clone(), pts.clone()); x.sort(); y.sort();
            req!(x == y, "sort_around changed the set");
            Ok(n > 1)
        });
    }
}
