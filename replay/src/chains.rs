//! C18: monotone and star polygons.  Oracle: exact integer geometry (geo.rs).
use crate::fw::*;
use crate::geo::*;
use crate::num_::*;
use crate::polys::{mps, ring_of};
use crate::req;
use crate::segs::{mp, Mk};
use num_bigint::BigInt;
use num_rational::BigRational;
use rand::Rng;
use rgeometry::algorithms::polygonization::*;
use rgeometry::data::*;
use std::cmp::Ordering;

fn dot(d: IP, p: IP) -> i128 { d[0] as i128 * p[0] as i128 + d[1] as i128 * p[1] as i128 }
/// some split into one rising and one falling chain
fn mono(r: &[IP], d: IP) -> bool {
    let n = r.len();
    let h: Vec<i128> = r.iter().map(|&p| dot(d, p)).collect();
    (0..n).any(|i| (0..n).any(|j| (0..n).all(|t| {
        let up = if i <= j { i <= t && t < j } else { t >= i || t < j };
        if up { h[t] <= h[(t + 1) % n] } else { h[t] >= h[(t + 1) % n] }
    })))
}
fn back<T: Mk>(pts: &[IP], z: IP, r: &[Point<T, 2>]) -> Option<Vec<IP>> { r.iter().map(|q| pts.iter().copied().find(|p| mp::<T>([p[0] * z[0], p[1] * z[1]]) == *q)).collect() }
fn scale(pts: &[IP], z: IP) -> Vec<IP> { pts.iter().map(|p| [p[0] * z[0], p[1] * z[1]]).collect() }
fn vecof<T: Mk>(d: IP) -> Vector<T, 2> { Vector::from(mp::<T>(d)) }

fn is_mono<T: Mk>(r: &[IP], d: IP, s: i64) -> Result<bool, String> {
    let p = Polygon::new_unchecked(mps::<T>(&scale(r, [s, s])));
    let (g, w) = (is_monotone_::<T>(&p, &vecof::<T>(d)), mono(r, d));
    req!(g == w, "is_monotone along {d:?} is {g}, should be {w}");
    Ok(r.len() > 4)
}
fn is_monotone_<T: Mk>(p: &Polygon<T>, d: &Vector<T, 2>) -> bool { p.is_monotone(d) }
fn new_mono<T: Mk>(pts: &[IP], d: IP, s: i64) -> Result<bool, String> {
    let z = [s, s];
    let mut set = pts.to_vec(); set.sort(); set.dedup();
    let flat = hull(pts).len() < 3;
    match new_monotone_polygon(mps::<T>(&scale(pts, z)), &vecof::<T>(d)) {
        Err(e) => { req!(flat, "Err({e:?}) although the points are not all on a line"); Ok(false) }
        Ok(q) => {
            req!(!flat, "a polygon was made of points all on a line");
            let Some(r) = back(pts, z, &ring_of(&q)) else { return Err("a vertex is not one of the points".to_string()) };
            let mut t = r.clone(); t.sort();
            req!(t == set, "the vertices are {r:?}, the points {set:?}");
            req!(simple(&r), "the ring {r:?} is not simple");
            req!(area2(&r) > 0, "the ring {r:?} is clockwise");
            req!(mono(&r, d), "the ring {r:?} is not monotone along {d:?}");
            req!(is_monotone_(&q, &vecof::<T>(d)), "is_monotone is false for the polygon made");
            Ok(set.len() > 4)
        }
    }
}
/// around o, counterclockwise from the direction to the right
fn acmp(o: IP, a: IP, b: IP) -> Ordering {
    let half = |p: IP| if p == o { 0 } else if p[1] > o[1] || (p[1] == o[1] && p[0] > o[0]) { 0 } else { 1 };
    half(a).cmp(&half(b)).then(0.cmp(&cross3(o, a, b)))
}
fn star<T: Mk>(pts: &[IP], o: IP, s: i64) -> Result<bool, String> {
    let z = [s, s];
    let g = |p: IP| [p[0] * s, p[1] * s];
    // different directions, each with another less than half a turn further round
    let spread = pts.len() >= 3 && (0..pts.len()).all(|i| pts[i] != o && (0..i).all(|j| acmp(o, pts[i], pts[j]) != Ordering::Equal) && pts.iter().any(|&q| cross3(o, pts[i], q) > 0));
    match new_star_polygon(mps::<T>(&scale(pts, z)), &mp::<T>(g(o))) {
        Err(e) => { req!(!spread, "Err({e:?}) although the points surround {o:?} in different directions"); Ok(false) }
        Ok(q) => {
            let Some(r) = back(pts, z, &ring_of(&q)) else { return Err("a vertex is not one of the points".to_string()) };
            let (mut t, mut u) = (r.clone(), pts.to_vec()); t.sort(); u.sort();
            req!(t == u, "the vertices are {r:?}, the points {u:?}");
            req!(simple(&r), "the ring {r:?} is not simple");
            req!(area2(&r) > 0, "the ring {r:?} is clockwise");
            if !pts.contains(&o) {
                let k = (0..r.len()).any(|k| { let v = rot(&r, k); let up = |v: &[IP]| v.windows(2).all(|w| acmp(o, w[0], w[1]) != Ordering::Greater); up(&v) || up(&rev(&v)) });
                req!(k, "the ring {r:?} does not go around {o:?}");
            }
            Ok(pts.len() > 4 && spread)
        }
    }
}
pub fn c18(c: &mut Ctx) {
    c.rule("every list of up to 4 points (and a sample of 5 and 6) on a 3x3 grid with several directions and centres, random lists of 3 to 14 points on small grids (so with duplicates, equal heights and colinear runs), random simple rings of up to 14 vertices in both windings for the test, scaled to the full range of the type; oracle: every split tried, exact simplicity; non-trivial: more than 4 points.");
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    let ds: [IP; 8] = [[0, 1], [1, 0], [0, -1], [-1, 0], [1, 1], [-1, 2], [2, -1], [0, 0]];
    for n in 0..=6u32 { for k in 0..9usize.pow(n) {
        if (n == 5 && k % 11 != 0) || (n == 6 && k % 101 != 0) { continue; }
        let mut x = k; let r: Vec<IP> = (0..n).map(|_| { let p = g[x % 9]; x /= 9; p }).collect();
        let d = ds[(k / 9) % 8];
        c.case("new_monotone_polygon", &(r.clone(), d), || new_mono::<i64>(&r, d, 1));
        let o = [(k / 5 % 3) as i64, (k / 7 % 3) as i64];
        c.case("new_star_polygon", &(r.clone(), o), || star::<i64>(&r, o, 1));
        if simple(&r) { c.case("is_monotone", &(r.clone(), d), || is_mono::<i64>(&r, d, 1)); }
        if c.saturated() { return; }
    } }
    let n = c.n(60_000, 2_000_000);
    for i in 0..n {
        if c.saturated() || (i % 32 == 0 && !c.time_left()) { break; }
        let k = [1, 2, 3, 6, 20][i as usize % 5];
        let d = if i % 3 == 0 { ds[c.rng.gen_range(0..8)] } else { rpt(&mut c.rng, k) };
        let m = c.rng.gen_range(0..15);
        let pts: Vec<IP> = (0..m).map(|_| rpt(&mut c.rng, k)).collect();
        let i8s = |k: i64| 127 / (2 * k);
        match i % 6 {
            0 => c.case("new_monotone_polygon", &(pts.clone(), d), || new_mono::<i64>(&pts, d, i64::MAX / k)),
            1 => c.case("new_monotone_polygon", &(pts.clone(), d), || new_mono::<i8>(&pts, d, i8s(k))),
            2 => c.case("new_monotone_polygon", &(pts.clone(), d), || new_mono::<BigInt>(&pts, d, 1)),
            3 => c.case("new_monotone_polygon", &(pts.clone(), d), || new_mono::<f64>(&pts, d, 1)),
            4 => c.case("new_monotone_polygon", &(pts.clone(), d), || new_mono::<BigRational>(&pts, d, 3)),
            _ => c.case("new_monotone_polygon", &(pts.clone(), d), || new_mono::<i32>(&pts, d, 1)),
        }
        let o = rpt(&mut c.rng, if i % 4 == 0 { 1 } else { k });
        // mostly points in different directions
        let mut q = pts.clone();
        if i % 5 != 0 { for j in (0..q.len()).rev() { if q[j] == o || q[..j].iter().any(|&p| acmp(o, p, q[j]) == Ordering::Equal) { q.remove(j); } } }
        match i % 5 {
            0 => c.case("new_star_polygon", &(q.clone(), o), || star::<i64>(&q, o, i64::MAX / k)),
            1 => c.case("new_star_polygon", &(q.clone(), o), || star::<i8>(&q, o, i8s(k))),
            2 => c.case("new_star_polygon", &(q.clone(), o), || star::<BigInt>(&q, o, 1)),
            3 => c.case("new_star_polygon", &(q.clone(), o), || star::<f64>(&q, o, 1)),
            _ => c.case("new_star_polygon", &(q.clone(), o), || star::<i64>(&q, o, 1)),
        }
        let m = c.rng.gen_range(3..15);
        let mut r = grow(&mut c.rng, m, k + 2);
        if c.rng.gen() { r = rev(&r); }
        if i % 2 == 0 { r.sort_by_key(|&p| dot(d, p)); let h: Vec<IP> = r.clone(); let q = new_monotone_polygon(mps::<BigInt>(&h), &vecof::<BigInt>(d)); if let Ok(q) = q { if let Some(v) = back(&h, [1, 1], &ring_of(&q)) { let j = c.rng.gen_range(0..v.len()); r = rot(&v, j); if c.rng.gen() { r = rev(&r); } } } }
        match i % 4 {
            0 => c.case("is_monotone", &(r.clone(), d), || is_mono::<i64>(&r, d, i64::MAX / (k + 2))),
            1 => c.case("is_monotone", &(r.clone(), d), || is_mono::<BigInt>(&r, d, 1)),
            2 => c.case("is_monotone", &(r.clone(), d), || is_mono::<f64>(&r, d, 1)),
            _ => c.case("is_monotone", &(r.clone(), d), || is_mono::<i32>(&r, d, 1)),
        }
    }
}
