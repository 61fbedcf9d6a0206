//! C06: the point order.
use crate::fw::*;
use crate::num_::*;
use crate::req;
use ordered_float::{NotNan, OrderedFloat};
use rand::Rng;
use rgeometry::data::{Point, Vector};
use rgeometry::TotalOrd;
use std::collections::BTreeSet;
use std::fmt::Debug;

fn lex<T: PartialOrd, const N: usize>(a: &[T; N], b: &[T; N]) -> Ordering {
    for i in 0..N { match a[i].partial_cmp(&b[i]).unwrap() { Ordering::Equal => {} o => return o } }
    Ordering::Equal
}
fn all_ways<P: TotalOrd + Ord + PartialOrd + PartialEq + Clone + Debug>(a: &P, b: &P, want: Ordering) -> Result<(), String> {
    req!(TotalOrd::total_cmp(a, b) == want, "total_cmp is {:?}, lexicographic {:?}", TotalOrd::total_cmp(a, b), want);
    req!(TotalOrd::total_cmp(&a, &b) == want, "total_cmp of references");
    req!(Ord::cmp(a, b) == want, "cmp is {:?}, lexicographic {:?}", Ord::cmp(a, b), want);
    req!(a.partial_cmp(b) == Some(want), "partial_cmp is {:?}", a.partial_cmp(b));
    req!((a == b) == (want == Ordering::Equal), "== is {}", a == b);
    req!((a != b) == (want != Ordering::Equal), "!= is {}", a != b);
    req!((a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater) && (a > b) == (want == Ordering::Greater) && (a >= b) == (want != Ordering::Less), "< <= > >= disagree with {want:?}");
    let mn = a.clone().total_min(b.clone()); let mx = a.clone().total_max(b.clone());
    let (wmn, wmx) = if want == Ordering::Greater { (b, a) } else { (a, b) };
    req!(TotalOrd::total_cmp(&mn, wmn) == Ordering::Equal, "total_min");
    req!(TotalOrd::total_cmp(&mx, wmx) == Ordering::Equal, "total_max");
    req!(&std::cmp::min(a, b).clone() == wmn && &std::cmp::max(a, b).clone() == wmx, "min / max");
    Ok(())
}
fn one<T: PartialOrd + TotalOrd + Clone + Debug, const N: usize>(x: [T; N], y: [T; N], z: [T; N], ij: [u32; 2]) -> Result<bool, String> {
    let want = lex(&x, &y);
    let (a, b, c) = (Point::new(x.clone()), Point::new(y.clone()), Point::new(z.clone()));
    all_ways(&a, &b, want)?;
    all_ways(&b, &a, want.reverse())?;
    all_ways(&a, &a, Ordering::Equal)?;
    let mut v = vec![a.clone(), b.clone(), c.clone(), a.clone()];
    v.sort();
    for i in 0..3 { req!(lex(&v[i].array, &v[i + 1].array) != Ordering::Greater, "sorted points out of order: {v:?}"); }
    let set: BTreeSet<Point<T, N>> = v.iter().cloned().collect();
    let mut distinct = 1; for i in 0..3 { if lex(&v[i].array, &v[i + 1].array) == Ordering::Less { distinct += 1; } }
    req!(set.len() == distinct, "a set of the points has {} elements, {} are distinct", set.len(), distinct);
    // tagged points: index first, then the point
    req!(TotalOrd::total_cmp(&(ij[0], &a), &(ij[1], &b)) == ij[0].cmp(&ij[1]).then(want), "order of (index, point)");
    req!(TotalOrd::total_cmp(&(&a, ij[0]), &(&b, ij[1])) == want.then(ij[0].cmp(&ij[1])), "order of (point, index)");
    // access
    for i in 0..N { req!(lex(&[a[i].clone()], &[x[i].clone()]) == Ordering::Equal, "indexing"); }
    let w: &Vector<T, N> = a.as_vec();
    req!(lex(&w.0, &x) == Ordering::Equal, "as_vec");
    req!(lex(&Point::from(Vector(x.clone())).array, &x) == Ordering::Equal, "from vector");
    req!(lex(&a.map(|t| t).array, &x) == Ordering::Equal, "map");
    Ok(want != Ordering::Equal)
}
fn conv(v: [i16; 2]) -> Result<bool, String> {
    let p = Point::new(v);
    let big: Point<BigInt, 2> = p.cast();
    req!(big.array == [BigInt::from(v[0]), BigInt::from(v[1])], "cast to BigInt is {big:?}");
    let wide: Point<i64, 2> = p.cast();
    req!(wide.array == [v[0] as i64, v[1] as i64], "cast to i64 is {wide:?}");
    let b2: Point<BigInt, 2> = wide.into();
    req!(b2.array == big.array, "i64 point into BigInt point: {b2:?}");
    let f = p.to_float();
    req!(f.array[0].0 == v[0] as f64 && f.array[1].0 == v[1] as f64, "to_float is {f:?}");
    let g: Point<f64, 2> = p.cast();
    let r: Point<BigRational, 2> = (&g).into();
    let r2: Point<BigRational, 2> = g.into();
    req!(r.array == [q(v[0] as i64), q(v[1] as i64)] && r2.array == r.array, "float point into rational point: {r:?} {r2:?}");
    let h: Point<f64, 2> = (&r).into();
    let h2: Point<f64, 2> = r.into();
    req!(h.array == g.array && h2.array == g.array, "rational point into float point: {h:?} {h2:?}");
    let t: Point<NotNan<f64>, 2> = std::convert::TryFrom::try_from(g).map_err(|_| "TryFrom refused a number".to_string())?;
    req!(t.array[0].into_inner() == g.array[0] && t.array[1].into_inner() == g.array[1], "TryFrom changed the point");
    let nn = Point::new_nn(g.array);
    req!(nn.array == t.array, "new_nn changed the point");
    let bad: Result<Point<NotNan<f64>, 2>, _> = std::convert::TryFrom::try_from(Point::new([g.array[0], f64::NAN]));
    req!(bad.is_err(), "TryFrom accepted NaN");
    let tup: Point<i16, 2> = (v[0], v[1]).into();
    req!(tup == p && *p.x_coord() == v[0] && *p.y_coord() == v[1], "tuple conversion / coordinate access");
    let p3 = Point::new([v[0], v[1], 7i16]);
    req!(*p3.x_coord() == v[0] && *p3.y_coord() == v[1] && *p3.z_coord() == 7, "coordinates in 3-d");
    let d: i64 = p.squared_euclidean_distance(&Point::new([3, -4]));
    req!(d as i128 == dist2([v[0] as i64, v[1] as i64], [3, -4]), "squared_euclidean_distance is {d}");
    let vv: &Vector<i16, 2> = (&p).into();
    req!(vv.0 == v, "point as vector");
    req!(Vector::from(p).0 == v, "point into vector");
    Ok(v[0] != v[1])
}
pub fn c06(c: &mut Ctx) {
    c.rule("all pairs over a 3x3 grid plus extremes, random pairs and triples in 1, 2, 3 and 4 dimensions for i8, i32, i64, BigInt, f64, OrderedFloat, NotNan; tagged points; oracle: coordinate-by-coordinate comparison; non-trivial: the points differ.");
    let vals = [i8::MIN, -1, 0, 1, i8::MAX];
    for &a in &vals { for &b in &vals { for &d in &vals { for &e in &vals {
        for k in 0..3u32 { c.case("i8", &(a, b, d, e, k), || one([a, b], [d, e], [b, d], [k, 1])); }
        c.case("f64", &(a, b, d, e), || one([a as f64, b as f64], [d as f64, e as f64], [0., 1.], [2, 2]));
        c.case("i8x3", &(a, b, d, e), || one([a, b, 0], [a, d, e], [d, e, b], [2, 2]));
    } } } }
    let n = c.n(200_000, 400_000);
    c.phase(0.9);
    for i in 0..n {
        if c.saturated() || (i % 256 == 0 && !c.time_left()) { break; }
        let wide = c.rng.gen::<bool>();
        let v: [i64; 12] = std::array::from_fn(|_| if wide { c.rng.gen() } else { c.rng.gen_range(-2..=2) });
        let ij = [c.rng.gen_range(0..3), if c.rng.gen() { c.rng.gen_range(0..3) } else { u32::MAX }];
        match i % 8 {
            0 => c.case("i64", &(v, ij), || one([v[0], v[1]], [v[2], v[3]], [v[4], v[5]], ij)),
            1 => c.case("BigInt", &(v, ij), || one([BigInt::from(v[0]), BigInt::from(v[1])], [BigInt::from(v[2]), BigInt::from(v[3])], [BigInt::from(v[4]), BigInt::from(v[5])], ij)),
            2 => c.case("OrderedFloat", &(v, ij), || one([OrderedFloat(v[0] as f64), OrderedFloat(v[1] as f64)], [OrderedFloat(v[2] as f64), OrderedFloat(v[3] as f64)], [OrderedFloat(v[4] as f64), OrderedFloat(v[5] as f64)], ij)),
            3 => { let f = |x: i64| NotNan::new(x as f64 * 0.5).unwrap(); c.case("NotNan", &(v, ij), || one([f(v[0]), f(v[1])], [f(v[2]), f(v[3])], [f(v[4]), f(v[5])], ij)) }
            4 => c.case("i64x4", &(v, ij), || one([v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]], [v[8], v[9], v[10], v[11]], ij)),
            5 => c.case("i64x1", &(v, ij), || one([v[0]], [v[1]], [v[2]], ij)),
            6 => c.case("i32x3", &(v, ij), || one([v[0] as i32, v[1] as i32, v[2] as i32], [v[3] as i32, v[4] as i32, v[5] as i32], [v[6] as i32, v[7] as i32, v[8] as i32], ij)),
            _ => { let w = [v[0] as i16, v[1] as i16]; c.case("conversions", &w, || conv([w[0] / 2, w[1] / 2])) }
        }
    }
}
