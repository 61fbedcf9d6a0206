//! C20: affine maps and vector arithmetic.  Oracle: i128 arithmetic, component by component.
use crate::fw::*;
use crate::num_::*;
use crate::req;
use num_traits::NumOps;
use rand::Rng;
use rgeometry::data::*;
use std::fmt::Debug;
use std::iter::Sum;
use std::ops::{AddAssign, Div, Mul, Neg};

pub trait Num: NumOps + Clone + AddAssign + Neg<Output = Self> + Sum + PartialEq + Debug + Zero + One + Mul<Output = Self> + Div<Output = Self> { fn n(i: i128) -> Self; }
macro_rules! num { ($($t:ty),*) => { $(impl Num for $t { fn n(i: i128) -> Self { i as $t } })* } }
num!(i32, i64, i128, f64);
impl Num for BigInt { fn n(i: i128) -> Self { BigInt::from(i) } }
impl Num for BigRational { fn n(i: i128) -> Self { BigRational::from_integer(BigInt::from(i)) } }
impl Num for ordered_float::OrderedFloat<f64> { fn n(i: i128) -> Self { ordered_float::OrderedFloat(i as f64) } }

fn arr<T: Num, const N: usize>(a: [i64; N]) -> [T; N] { a.map(|x| T::n(x as i128)) }
fn w<const N: usize>(f: impl Fn(usize) -> i128) -> [i128; N] { let mut r = [0; N]; for i in 0..N { r[i] = f(i); } r }
fn tn<T: Num, const N: usize>(a: [i128; N]) -> [T; N] { a.map(T::n) }

fn arith<T: Num, const N: usize>(a: [i64; N], b: [i64; N], s: i64) -> Result<bool, String> {
    let (p, q) = (Point::new(arr::<T, N>(a)), Point::new(arr::<T, N>(b)));
    let (u, v) = (Vector(arr::<T, N>(a)), Vector(arr::<T, N>(b)));
    let add = tn::<T, N>(w(|i| a[i] as i128 + b[i] as i128));
    let sub = tn::<T, N>(w(|i| a[i] as i128 - b[i] as i128));
    let neg = tn::<T, N>(w(|i| -(a[i] as i128)));
    let mul = tn::<T, N>(w(|i| a[i] as i128 * s as i128));
    let c = T::n(s as i128);
    macro_rules! is { ($e:expr, $w:expr, $n:expr) => { let r = $e; req!(r == $w, "{}: {:?}, should be {:?}", $n, r, $w); } }
    is!((&p + &v).array, add, "&point + &vector");
    is!((p.clone() + v.clone()).array, add, "point + vector");
    is!((p.clone() + &v).array, add, "point + &vector");
    is!({ let mut x = p.clone(); x += &v; x.array }, add, "point += &vector");
    is!({ let mut x = p.clone(); x += v.clone(); x.array }, add, "point += vector");
    is!({ let mut x = u.clone(); x += v.clone(); x.0 }, add, "vector += vector");
    is!((u.clone() + v.clone()).0, add, "vector + vector");
    is!((&u + &v).0, add, "&vector + &vector");
    is!((VectorView(&u.0) + VectorView(&v.0)).0, add, "view + view");
    is!((&p - &q).0, sub, "&point - &point");
    is!((p.clone() - q.clone()).0, sub, "point - point");
    is!((&u - &v).0, sub, "&vector - &vector");
    is!((-u.clone()).0, neg, "-vector");
    is!((u.clone() * c.clone()).0, mul, "vector * scalar");
    is!((VectorView(&u.0) * c.clone()).0, mul, "view * scalar");
    if s != 0 {
        is!((Vector(mul.clone()) / c.clone()).0, u.0, "vector / scalar");
        is!((VectorView(&mul) / c.clone()).0, u.0, "view / scalar");
    }
    is!(Vector::from(p.clone()).0, u.0, "Vector::from(point)");
    is!(Point::from(u.clone()).array, p.array, "Point::from(vector)");
    is!(VectorView::from(&p).0, &p.array, "VectorView::from(&point)");
    is!(p.as_vec().0.clone(), p.array, "as_vec");
    is!(p.map(|x| x.clone() + x).array, tn::<T, N>(w(|i| 2 * a[i] as i128)), "point.map");
    is!(u.map(|x| x.clone() + x).0, tn::<T, N>(w(|i| 2 * a[i] as i128)), "vector.map");
    for i in 0..N { is!(p[i].clone(), p.array[i], "point[i]"); is!(u[i].clone(), u.0[i], "vector[i]"); }
    let zero = Point::<T, N>::zero();
    is!(zero.array, tn::<T, N>([0; N]), "Point::zero");
    is!(vec![u.clone(), v.clone(), u.clone()].into_iter().sum::<Vector<T, N>>().0, tn::<T, N>(w(|i| 2 * a[i] as i128 + b[i] as i128)), "sum of vectors");
    is!(p.squared_euclidean_distance::<T>(&q), T::n((0..N).map(|i| (a[i] as i128 - b[i] as i128).pow(2)).sum()), "squared_euclidean_distance");
    is!(u.squared_magnitude(), T::n((0..N).map(|i| (a[i] as i128).pow(2)).sum()), "squared_magnitude");
    Ok(a != [0; N] && b != [0; N])
}

/// maps in order of application: (0, t) translate, (1, s) scale, (2, s) scale uniformly by s[0]
fn maps<T: Num, const N: usize>(m: &[(u8, [i64; N])], p: [i64; N]) -> Result<bool, String> {
    let mk = |&(k, a): &(u8, [i64; N])| -> Transform<T, N> { match k { 0 => Transform::translate(Vector(arr(a))), 1 => Transform::scale(Vector(arr(a))), _ => Transform::uniform_scale(T::n(a[0] as i128)) } };
    let mut x = w::<N>(|i| p[i] as i128);
    let pt = Point::new(arr::<T, N>(p));
    let mut step = pt.clone();
    let mut comp: Option<Transform<T, N>> = None;
    for e in m {
        for i in 0..N { x[i] = match e.0 { 0 => x[i] + e.1[i] as i128, 1 => x[i] * e.1[i] as i128, _ => x[i] * e.1[0] as i128 }; }
        let t = mk(e);
        step = &t * &step;
        comp = Some(match comp { None => t, Some(c) => if e.0 == 1 { t * c } else { &t * &c } });
    }
    let want = tn::<T, N>(x);
    req!(step.array == want, "applied one after another: {:?}, should be {:?}", step.array, want);
    let c = comp.unwrap();
    let v = Vector(arr::<T, N>(p));
    macro_rules! is { ($e:expr, $n:expr) => { let r = $e; req!(r == want, "{}: {:?}, should be {:?}", $n, r, want); } }
    is!((&c * &pt).array, "&t * &point");
    is!((&c * pt.clone()).array, "&t * point");
    is!((c.clone() * pt.clone()).array, "t * point");
    is!((&c * &v).0, "&t * &vector");
    is!((&c * v.clone()).0, "&t * vector");
    is!((c.clone() * &v).0, "t * &vector");
    // associativity: the other bracketing
    let mut d: Option<Transform<T, N>> = None;
    for e in m.iter().rev() { let t = mk(e); d = Some(match d { None => t, Some(d) => d * t }); }
    is!((d.unwrap() * pt.clone()).array, "(left to right composition) * point");
    Ok(m.len() > 1)
}

fn poly<T: Num>(m: &[(u8, IP)], ring: &[IP]) -> Result<bool, String> where T: crate::segs::Mk {
    let mk = |&(k, a): &(u8, IP)| -> Transform<T, 2> { match k { 0 => Transform::translate(Vector(arr(a))), 1 => Transform::scale(Vector(arr(a))), _ => Transform::uniform_scale(T::n(a[0] as i128)) } };
    let mut c = mk(&m[0]);
    for e in &m[1..] { c = mk(e) * c; }
    let p = Polygon::<T>::new_unchecked(crate::polys::mps::<T>(ring));
    let want: Vec<_> = crate::polys::ring_of(&p).iter().map(|x| &c * x).collect();
    for (n, r) in [("&t * &polygon", &c * &p), ("&t * polygon", &c * p.clone()), ("t * &polygon", c.clone() * &p), ("t * polygon", c.clone() * p.clone()), ("map_points", p.clone().map_points(|x| &c * &x))] {
        let got = crate::polys::ring_of(&r);
        req!(got == want, "{n}: {got:?}, should be {want:?}");
        for (a, b) in p.iter_boundary().zip(r.iter_boundary()) { req!(a.point_id() == b.point_id(), "{n}: the point ids changed"); }
    }
    Ok(m.len() > 1)
}

fn normalize(ring: &[IP]) -> Result<bool, String> {
    type F = ordered_float::OrderedFloat<f64>;
    let p = Polygon::<F>::new(crate::polys::mps::<F>(ring)).map_err(|e| format!("{e:?}"))?;
    let r = p.normalize();
    let (lo, hi) = r.bounding_box();
    let (a, b) = ((hi.array[0] - lo.array[0]).0, (hi.array[1] - lo.array[1]).0);
    req!((a.max(b) - 1.0).abs() < 1e-9, "the larger side of the normalized polygon is {}", a.max(b));
    let c = r.centroid();
    req!(c.array[0].0.abs() < 1e-6 && c.array[1].0.abs() < 1e-6, "the centroid of the normalized polygon is {c:?}");
    Ok(true)
}

pub fn c20(c: &mut Ctx) {
    c.rule("points, vectors and scalars with small integer components in dimensions 1 to 4, every arithmetic operator, conversion and map; chains of 1 to 4 translations and scalings, composed in both bracketings and applied to points, vectors and polygons; i32, i64, f64, BigInt, BigRational; oracle: i128 arithmetic; normalized polygons within 1e-6; non-trivial: at least two maps, no zero vector.");
    let n = c.n(60_000, 1_500_000);
    macro_rules! dim { ($n:expr, $i:expr) => {{
        let k = [1i64, 3, 20][$i as usize % 3];
        let mut a = || { let mut r = [0i64; $n]; for x in r.iter_mut() { *x = c.rng.gen_range(-k..=k); } r };
        let (p, q) = (a(), a());
        let m: Vec<(u8, [i64; $n])> = (0..1 + $i as usize % 4).map(|_| { let v = a(); (v.iter().map(|x| x.unsigned_abs()).sum::<u64>() as u8 % 3, v) }).collect();
        let s = q[0];
        match $i % 5 {
            0 => { c.case("arithmetic", &(p, q, s, "i64"), || arith::<i64, $n>(p, q, s)); c.case("maps", &(m.clone(), p, "i64"), || maps::<i64, $n>(&m, p)); }
            1 => { c.case("arithmetic", &(p, q, s, "f64"), || arith::<f64, $n>(p, q, s)); c.case("maps", &(m.clone(), p, "f64"), || maps::<f64, $n>(&m, p)); }
            2 => { c.case("arithmetic", &(p, q, s, "BigRational"), || arith::<BigRational, $n>(p, q, s)); c.case("maps", &(m.clone(), p, "BigRational"), || maps::<BigRational, $n>(&m, p)); }
            3 => { c.case("arithmetic", &(p, q, s, "BigInt"), || arith::<BigInt, $n>(p, q, s)); c.case("maps", &(m.clone(), p, "BigInt"), || maps::<BigInt, $n>(&m, p)); }
            _ => { c.case("arithmetic", &(p, q, s, "i32"), || arith::<i32, $n>(p, q, s)); c.case("maps", &(m.clone(), p, "i128"), || maps::<i128, $n>(&m, p)); }
        }
    }} }
    for i in 0..n {
        if c.saturated() || (i % 32 == 0 && !c.time_left()) { break; }
        match i % 7 % 4 { 0 => dim!(1, i), 1 => dim!(2, i), 2 => dim!(3, i), _ => dim!(4, i) }
        if i % 8 == 0 {
            let ring: Vec<IP> = (0..c.rng.gen_range(3..8)).map(|_| [c.rng.gen_range(-9..10), c.rng.gen_range(-9..10)]).collect();
            let m: Vec<(u8, IP)> = (0..c.rng.gen_range(1..4)).map(|_| (c.rng.gen_range(0..3), [c.rng.gen_range(-9..10), c.rng.gen_range(-9..10)])).collect();
            match i % 3 { 0 => c.case("polygons", &(m.clone(), ring.clone()), || poly::<i64>(&m, &ring)), 1 => c.case("polygons", &(m.clone(), ring.clone()), || poly::<BigRational>(&m, &ring)), _ => c.case("polygons", &(m.clone(), ring.clone()), || poly::<f64>(&m, &ring)) }
            let mut r = ring.clone();
            if crate::geo::simple(&r) { if crate::geo::area2(&r) < 0 { r.reverse(); } if crate::geo::area2(&r) > 0 { c.case("normalize", &r, || normalize(&r)); } }
        }
    }
}
