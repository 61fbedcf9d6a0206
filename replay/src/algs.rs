//! C15-C19, C21, C22: algorithms over point sets and rings.  Oracle: exact integer geometry (geo.rs).
use crate::fw::*;
use crate::geo::*;
use crate::num_::*;
use crate::polys::{mps, ring_of};
use crate::req;
use crate::segs::Mk;
use num_bigint::BigInt;
use num_rational::BigRational;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::triangulation::earclip::{earclip, earclip_hashed};
use rgeometry::algorithms::zhash::*;
use rgeometry::data::*;
use rgeometry::Error;

fn is_rot_p<T: Mk>(a: &[Point<T, 2>], b: &[Point<T, 2>]) -> bool { a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i]))) }

// ---------------------------------------------------------------- C15
fn hulls<T: Mk>(pts: &[IP], sc: IP) -> Result<bool, String> {
    let z = |r: &[IP]| r.iter().map(|p| [p[0] * sc[0], p[1] * sc[1]]).collect::<Vec<IP>>();
    let h = hull(pts);
    let mut d = pts.to_vec(); d.sort(); d.dedup();
    let flat = d.len() < 3 || h.len() < 3;
    let w = mps::<T>(&z(&h));
    type F<T> = fn(Vec<Point<T, 2>>) -> Result<PolygonConvex<T>, Error>;
    let fs: [(&str, F<T>); 2] = [("graham_scan", graham_scan::convex_hull::<T>), ("gift_wrapping", gift_wrapping::convex_hull::<T>)];
    for (name, f) in fs {
        match f(mps::<T>(&z(pts))) {
            Err(e) => { req!(flat, "{name} is Err({e:?}) although the points are not all on a line"); req!(e == Error::InsufficientVertices, "{name}: {e:?}"); }
            Ok(p) => {
                req!(!flat, "{name} returns a polygon for points all on a line");
                let b = ring_of(p.polygon());
                req!(is_rot_p(&b, &w), "{name} is {b:?}, the hull is {w:?}");
                req!(p.validate() == Ok(()), "{name}: the hull does not validate");
            }
        }
    }
    Ok(h.len() > 3 && h.len() < d.len())
}
fn melk<T: Mk>(r: &[IP], sc: IP) -> Result<bool, String> {
    let z = |r: &[IP]| r.iter().map(|p| [p[0] * sc[0], p[1] * sc[1]]).collect::<Vec<IP>>();
    let p = Polygon::new(mps::<T>(&z(r))).map_err(|e| format!("simple ring rejected: {e:?}"))?;
    let h = hull(r);
    let w = mps::<T>(&z(&h));
    let c = melkman::convex_hull(&p);
    let b = ring_of(c.polygon());
    req!(is_rot_p(&b, &w), "melkman is {b:?}, the hull is {w:?}");
    Ok(h.len() > 3 && h.len() < r.len())
}
pub fn c15(c: &mut Ctx) {
    c.rule("every list of up to 4 points (and a sample of 5 and 6) on a 3x3 grid, random lists of up to 40 points on small grids (so with duplicates and colinear runs), scaled to the full range of the type; random simple rings in both windings for melkman; oracle: exact monotone-chain hull; non-trivial: hull of more than 3 vertices not using all points.");
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    for n in 0..=6u32 { for k in 0..9usize.pow(n) {
        if (n == 5 && k % 7 != 0) || (n == 6 && k % 67 != 0) { continue; }
        let mut x = k; let r: Vec<IP> = (0..n).map(|_| { let p = g[x % 9]; x /= 9; p }).collect();
        c.case("hull", &r, || hulls::<i8>(&r, [1, 1]));
        if simple(&r) { c.case("melkman", &r, || melk::<i8>(&r, [1, 1])); }
        if c.saturated() { return; }
    } }
    let n = c.n(40_000, 1_000_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [1, 2, 4, 8, 30][i as usize % 5];
        let m = c.rng.gen_range(0..if k < 4 { 12 } else { 40 });
        let r: Vec<IP> = (0..m).map(|_| rpt(&mut c.rng, k)).collect();
        let z = [[1, 1], [3, 2], [1, 5]][i as usize % 3];
        match i % 7 {
            0 => c.case("hull", &r, || hulls::<i64>(&r, z)),
            1 => { let s = i64::MAX / k; c.case("hull", &r, || hulls::<i64>(&r, [s, s])) }
            2 => { let s = i32::MAX as i64 / k; c.case("hull", &r, || hulls::<i32>(&r, [s, s])) }
            3 => { let s = 127 / k; c.case("hull", &r, || hulls::<i8>(&r, [s, s])) }
            4 => c.case("hull", &r, || hulls::<BigInt>(&r, z)),
            5 => c.case("hull", &r, || hulls::<f64>(&r, z)),
            _ => c.case("hull", &r, || hulls::<BigRational>(&r, z)),
        }
        let m = c.rng.gen_range(3..16);
        let mut r = grow(&mut c.rng, m, k + 2);
        if c.rng.gen() { r = rev(&r); }
        match i % 4 {
            0 => c.case("melkman", &r, || melk::<i64>(&r, z)),
            1 => { let s = i64::MAX / (k + 2); c.case("melkman", &r, || melk::<i64>(&r, [s, s])) }
            2 => c.case("melkman", &r, || melk::<BigInt>(&r, z)),
            _ => c.case("melkman", &r, || melk::<f64>(&r, z)),
        }
    }
}

// ---------------------------------------------------------------- C16
/// the triples cut the ring down to nothing, each an ear of what remains
fn cut(r: &[IP], ts: &[[IP; 3]], name: &str) -> Result<(), String> {
    req!(ts.len() == r.len() - 2, "{name}: {} triangles for {} vertices", ts.len(), r.len());
    let mut rest = r.to_vec();
    let mut area = 0;
    for t in ts {
        let n = rest.len();
        let Some(i) = rest.iter().position(|p| *p == t[1]) else { return Err(format!("{name}: {:?} was cut before", t[1])) };
        req!(rest[(i + n - 1) % n] == t[0] && rest[(i + 1) % n] == t[2], "{name}: {t:?} is not a corner of the remaining polygon {rest:?}");
        req!(crate::polys::is_ear(&rest, i), "{name}: {t:?} is not an ear of the remaining polygon {rest:?}");
        area += cross3(t[0], t[1], t[2]);
        rest.remove(i);
    }
    req!(area == area2(r), "{name}: areas sum to {area}, not {}", area2(r));
    Ok(())
}
fn tri<T: Mk>(r: &[IP], sc: IP) -> Result<bool, String> {
    let p = Polygon::new_unchecked(mps::<T>(&r.iter().map(|p| [p[0] * sc[0], p[1] * sc[1]]).collect::<Vec<_>>()));
    let ix = |id: PointId| r[usize::from(id)];
    let ts: Vec<[IP; 3]> = earclip(&p).map(|(a, b, c)| [ix(a), ix(b), ix(c)]).collect();
    cut(r, &ts, "earclip")?;
    let ts: Vec<[IP; 3]> = p.triangulate().map(|(a, b, c)| [ix(a.point_id()), ix(b.point_id()), ix(c.point_id())]).collect();
    cut(r, &ts, "triangulate")?;
    Ok(r.len() > 3)
}
fn trih<T: Mk + ZHashable>(r: &[IP], sc: IP, off: IP) -> Result<bool, String> {
    let p = Polygon::new_unchecked(mps::<T>(&r.iter().map(|p| [p[0] * sc[0] + off[0], p[1] * sc[1] + off[1]]).collect::<Vec<_>>()));
    let ix = |id: PointId| r[usize::from(id)];
    let ts: Vec<[IP; 3]> = earclip_hashed(&p).map(|(a, b, c)| [ix(a), ix(b), ix(c)]).collect();
    cut(r, &ts, "earclip_hashed")?;
    Ok(r.len() > 3)
}
pub fn c16(c: &mut Ctx) {
    c.rule("random simple counterclockwise rings (3 to 60 vertices, with colinear vertices and spikes touching extensions), every simple ring of 3 to 5 vertices over a 3x3 grid; types i8, i64 (also shifted to the ends of the range), f64, BigInt, BigRational, i32; oracle: each triple is an ear of what remains, exact areas; non-trivial: more than 3 vertices.");
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    for n in 3..=5u32 { for k in 0..9usize.pow(n) {
        let mut x = k; let r: Vec<IP> = (0..n).map(|_| { let p = g[x % 9]; x /= 9; p }).collect();
        if simple(&r) && area2(&r) > 0 { c.case("earclip", &r, || tri::<i8>(&r, [1, 1])); c.case("earclip_hashed", &r, || trih::<i8>(&r, [1, 1], [0, 0])); }
        if c.saturated() { return; }
    } }
    let n = c.n(90_000, 1_000_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [3, 6, 12, 40][i as usize % 4];
        let m = c.rng.gen_range(3..if i % 8 == 0 { 60 } else { 14 });
        let r = grow(&mut c.rng, m, k);
        let z = [[1, 1], [3, 2], [1, 7]][i as usize % 3];
        match i % 5 {
            0 => c.case("earclip", &r, || tri::<i64>(&r, z)),
            1 => { let s = i64::MAX / k; c.case("earclip", &r, || tri::<i64>(&r, [s, s])) }
            2 => c.case("earclip", &r, || tri::<BigInt>(&r, z)),
            3 => c.case("earclip", &r, || tri::<f64>(&r, z)),
            _ => { let s = i32::MAX as i64 / k; c.case("earclip", &r, || tri::<i32>(&r, [s, s])) }
        }
        match c.rng.gen_range(0..6) {
            0 => { let s = i64::MAX / k; c.case("earclip_hashed", &r, || trih::<i64>(&r, [s, s], [0, 0])) }
            1 => { let s = 1i64 << c.rng.gen_range(0..50); let t = 1i64 << c.rng.gen_range(0..50); c.case("earclip_hashed", &(r.clone(), s, t), || trih::<i64>(&r, [s, t], [0, 0])) }
            2 => { let o = [i64::MAX - k, i64::MIN + k]; c.case("earclip_hashed", &r, || trih::<i64>(&r, [1, 1], o)) }
            3 => { let s = 127 / k; c.case("earclip_hashed", &r, || trih::<i8>(&r, [s, s], [0, 0])) }
            4 => c.case("earclip_hashed", &r, || trih::<f64>(&r, z, [0, 0])),
            _ => { let o = [1 << 40, -(1 << 40)]; c.case("earclip_hashed", &r, || trih::<f64>(&r, z, o)) }
        }
        // small shapes in a huge box (hashes collide or wrap): some vertices moved far away
        let mut q = r.clone();
        for _ in 0..c.rng.gen_range(1..4) {
            let j = c.rng.gen_range(0..q.len()); let e = 1i64 << c.rng.gen_range(16..45); let d = rpt(&mut c.rng, 2);
            let mut t = q.clone(); t[j] = [t[j][0] + d[0] * e, t[j][1] + d[1] * e];
            if simple_big(&t) && area2(&t) > 0 { q = t; }
        }
        c.case("earclip_hashed", &q, || trih::<i64>(&q, [1, 1], [0, 0]));
    }
}

// ---------------------------------------------------------------- C17
fn all_colinear(d: &[IP]) -> bool { d.len() < 3 || d.iter().all(|p| cross3(d[0], d[1], *p) == 0) }
fn two_opt<T: Mk>(r: &[IP], seed: u64, sc: i64) -> Result<bool, String> {
    let mut rng = SmallRng::seed_from_u64(seed);
    let pts = mps::<T>(&r.iter().map(|p| [p[0] * sc, p[1] * sc]).collect::<Vec<_>>());
    let got = two_opt_moves(pts.clone(), &mut rng);
    if has_dups(r) { req!(got.as_ref().err() == Some(&Error::DuplicatePoints), "duplicate points give {:?}", got.as_ref().err()); return Ok(false); }
    if all_colinear(r) { req!(got.as_ref().err() == Some(&Error::InsufficientVertices), "points on a line give {:?}", got.as_ref().err()); return Ok(false); }
    match got {
        Err(e) => Err(format!("distinct points, not all on a line, give Err({e:?})")),
        Ok(p) => {
            req!(p.iter().cloned().collect::<Vec<_>>() == pts, "the points were changed");
            let ring: Vec<IP> = p.boundary_slice().iter().map(|&i| r[usize::from(i)]).collect();
            let mut a = ring.clone(); a.sort(); let mut b = r.to_vec(); b.sort();
            req!(a == b, "the boundary does not visit every point once");
            req!(simple(&ring) && area2(&ring) > 0, "the boundary is not simple and counterclockwise: {ring:?}");
            req!(p.validate() == Ok(()), "does not validate: {:?}", p.validate());
            Ok(r.len() > 3)
        }
    }
}
pub fn c17(c: &mut Ctx) {
    c.rule("every list of 3 and 4 points (and a sample of 5 and 6) over a 3x3 grid, random lists of 3 to 14 points on small grids, a few lists of up to 400 points, several random seeds; oracle: exact simplicity; non-trivial: more than 3 points.");
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    for n in 0..=6u32 { for k in 0..9usize.pow(n) {
        if (n == 5 && k % 11 != 0) || (n == 6 && k % 101 != 0) { continue; }
        let mut x = k; let r: Vec<IP> = (0..n).map(|_| { let p = g[x % 9]; x /= 9; p }).collect();
        if n > 3 && has_dups(&r) && k % 7 != 0 { continue; }
        c.case("two_opt", &(r.clone(), k as u64), || two_opt::<i8>(&r, k as u64, 1));
        if c.saturated() { return; }
    } }
    for i in 0..c.n(8, 60) {
        if c.saturated() || !c.time_left() { break; }
        let (m, k) = [(60, 6), (120, 30), (300, 20), (400, 500)][i as usize % 4];
        let mut r: Vec<IP> = (0..m).map(|_| rpt(&mut c.rng, k)).collect();
        let mut seen = std::collections::BTreeSet::new(); r.retain(|p| seen.insert(*p));
        let s: u64 = c.rng.gen();
        c.case("two_opt large", &(r.clone(), s), || two_opt::<i64>(&r, s, 1));
    }
    let n = c.n(40_000, 1_000_000);
    for i in 0..n {
        if c.saturated() || (i % 32 == 0 && !c.time_left()) { break; }
        let k = [1, 2, 3, 6, 20][i as usize % 5];
        let m = c.rng.gen_range(3..14);
        let mut r: Vec<IP> = (0..m).map(|_| rpt(&mut c.rng, k)).collect();
        if i % 3 != 0 { for j in (0..r.len()).rev() { if r[..j].contains(&r[j]) { r.remove(j); } } }
        let s: u64 = c.rng.gen();
        let inp = (r.clone(), s);
        match i % 5 {
            0 => c.case("two_opt", &inp, || two_opt::<i64>(&r, s, 1)),
            1 => c.case("two_opt", &inp, || two_opt::<i64>(&r, s, i64::MAX / k)),
            2 => c.case("two_opt", &inp, || two_opt::<BigInt>(&r, s, 1)),
            3 => c.case("two_opt", &inp, || two_opt::<f64>(&r, s, 1)),
            _ => c.case("two_opt", &inp, || two_opt::<i8>(&r, s, 127 / k)),
        }
    }
}

// ---------------------------------------------------------------- C19
fn zpair(a: u32, b: u32) -> Result<bool, String> {
    let h = zhash_pair(a, b);
    let mut w = 0u64;
    for i in 0..32 { w |= (a as u64 >> i & 1) << (2 * i); w |= (b as u64 >> i & 1) << (2 * i + 1); }
    req!(h == w, "zhash_pair is {h:#x}, interleaved {w:#x}");
    req!(zunhash_pair(h) == (a, b), "zunhash_pair(zhash_pair) is {:?}", zunhash_pair(h));
    Ok(a != b)
}
/// v: sorted corner/inner coordinates lo <= a <= b <= hi
fn zmono<T: ZHashable + Clone>(x: [T; 4], y: [T; 4]) -> Result<bool, String> {
    let key = T::zhash_key(ZHashBox { min_x: &x[0], max_x: &x[3], min_y: &y[0], max_y: &y[3] });
    let h = |i: usize, j: usize| T::zhash_fn(key, &Point::new([x[i].clone(), y[j].clone()]));
    for i in 0..4 { for j in 0..4 { for k in i..4 { for l in j..4 { req!(h(i, j) <= h(k, l), "the hash of ({i},{j}) is {:#x}, of ({k},{l}) {:#x}", h(i, j), h(k, l)); } } } }
    Ok(true)
}
pub fn c19(c: &mut Ctx) {
    c.rule("bit patterns (random, single bits, runs, extremes) interleaved and taken apart; four ordered coordinates per axis (random, adjacent, extreme, equal) for i8, i64, u64, u32, f64, all 16 points compared; oracle: bit by bit interleaving, and the order itself; non-trivial: the two numbers differ.");
    let n = c.n(600_000, 2_000_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let mut w = || -> u32 { let r: u32 = c.rng.gen(); match r % 5 { 0 => 1 << (r >> 27), 1 => u32::MAX >> (r >> 27), 2 => u32::MAX << (r >> 27), _ => c.rng.gen() } };
        let (a, b) = (w(), w());
        c.case("zhash_pair", &(a, b), || zpair(a, b));
        macro_rules! four { ($t:ty) => { { let mut v: Vec<$t> = (0..4).map(|_| c.rng.gen()).collect(); match c.rng.gen_range(0..5) { 0 => { v[0] = <$t>::MIN; v[3] = <$t>::MAX } 1 => { let s = c.rng.gen_range(0..<$t>::BITS); for x in v.iter_mut() { *x >>= s } } 2 => { let b = v[0]; for (j, x) in v.iter_mut().enumerate() { *x = b.saturating_add(j as $t) } } 3 => { v[1] = v[0]; v[2] = v[0] } _ => {} } v.sort(); [v[0], v[1], v[2], v[3]] } } }
        match i % 5 {
            0 => { let (x, y) = (four!(i64), four!(i64)); c.case("zhash i64", &(x, y), || zmono(x, y)) }
            1 => { let (x, y) = (four!(u64), four!(u64)); c.case("zhash u64", &(x, y), || zmono(x, y)) }
            2 => { let (x, y) = (four!(i8), four!(i8)); c.case("zhash i8", &(x, y), || zmono(x, y)) }
            3 => { let (x, y) = (four!(u32), four!(u32)); c.case("zhash u32", &(x, y), || zmono(x, y)) }
            _ => {
                let f = |c: &mut Ctx| { let mut v: Vec<f64> = (0..4).map(|_| { let b: u64 = c.rng.gen(); let x = f64::from_bits(b); if b % 3 == 0 || !x.is_finite() { (b as i64 >> 40) as f64 / 16.0 } else { x } }).collect(); if c.rng.gen_range(0..4) == 0 { v[1] = v[0]; v[2] = v[3] } if c.rng.gen_range(0..9) == 0 { let a = v[0]; v.fill(a); } v.sort_by(f64::total_cmp); [v[0], v[1], v[2], v[3]] };
                let (x, y) = (f(c), f(c));
                c.case("zhash f64", &(x.map(f64::to_bits), y.map(f64::to_bits)), || zmono(x, y))
            }
        }
    }
}

// ---------------------------------------------------------------- C22
/// ops: (k, a, b, c, d) with k%8 <3 remove all intersections of edge (a, b), 7 draw one, otherwise push
fn isects(n: usize, ops: &[(u8, usize, usize, usize, usize)], seed: u64) -> Result<bool, String> {
    use rgeometry::data::{IndexEdge, IndexIntersection, IndexIntersectionSet, PointId};
    let mut rng = SmallRng::seed_from_u64(seed);
    let ids: Vec<PointId> = if n >= 3 {
        let pts: Vec<Point<i64, 2>> = (0..n as i64).map(|i| Point::new([i, i * i])).collect();
        Polygon::new_unchecked(pts).iter_boundary().map(|c| c.point_id()).collect()
    } else { vec![] };
    let mut s = IndexIntersectionSet::new(n);
    let mut m: Vec<(IndexEdge, IndexEdge)> = vec![];
    let ends = |e: IndexEdge| (e.min, e.max);
    let mut removed = false;
    for &(k, a, b, c, d) in ops {
        if n < 3 { break; }
        let e = IndexEdge::new(ids[a % n], ids[b % n]);
        let f = IndexEdge::new(ids[c % n], ids[d % n]);
        if e.min == e.max || f.min == f.max { continue; }
        match k % 8 {
            0..=2 => {
                s.remove_all(e);
                let l = m.len();
                m.retain(|p| p.0 != e && p.1 != e);
                removed |= m.len() + 1 < l;
            }
            7 => {
                let r = s.random(&mut rng);
                match r {
                    None => req!(m.is_empty(), "random found nothing among {m:?}"),
                    Some(x) => req!(m.contains(&(x.min, x.max)), "random found {x:?}, which is not among {m:?}"),
                }
            }
            _ => {
                if e == f { continue; }
                let i = IndexIntersection::new(e, f);
                req!((ends(i.min), ends(i.max)) == (ends(e.min(f)), ends(e.max(f))), "IndexIntersection::new({e:?},{f:?}) is {i:?}");
                s.push(i);
                m.push((i.min, i.max));
            }
        }
        let mut have: Vec<_> = s.iter().map(|i| (i.min, i.max)).collect();
        have.sort();
        m.sort();
        req!(have == m, "after {k},{e:?},{f:?} the set holds {have:?}, should hold {m:?}");
    }
    req!(s.random(&mut rng).is_none() == m.is_empty(), "random answers nothing: {}, elements left: {}", !m.is_empty(), m.len());
    Ok(removed)
}
pub fn c22(c: &mut Ctx) {
    c.rule("random histories of up to 60 pushes, removals of all intersections of an edge, and draws, over 0 to 8 vertices (few edges, so that edges share many intersections and slots are reused); oracle: a plain list; non-trivial: some removal removed more than one intersection.");
    for n in 0..4 { c.case("isects", &(n, "empty"), || isects(n, &[], 1)); }
    let n = c.n(200_000, 4_000_000);
    for i in 0..n {
        if c.saturated() || (i % 32 == 0 && !c.time_left()) { break; }
        let v = match i % 200 { 0 => 300, 1 => 80, _ => c.rng.gen_range(3..9usize) };
        let l = if v > 8 { 400 } else { c.rng.gen_range(1..if i % 4 == 0 { 60 } else { 14 }) };
        let (c0, c1) = (c.rng.gen_range(0..v), c.rng.gen_range(0..v));
        let ops: Vec<(u8, usize, usize, usize, usize)> = (0..l).map(|_| (c.rng.gen_range(0..8), if v > 8 { c0 + c.rng.gen_range(0..2) } else { c.rng.gen_range(0..v) }, c.rng.gen_range(0..v), if v > 8 && i % 400 < 200 { c1 + c.rng.gen_range(0..2) } else { c.rng.gen_range(0..v) }, c.rng.gen_range(0..v))).collect();
        let s: u64 = c.rng.gen();
        c.case("isects", &(v, ops.clone(), s), || isects(v, &ops, s));
    }
}
