//! C10-C14: polygons.  Oracle: exact integer geometry (geo.rs).
use crate::fw::*;
use crate::geo::*;
use crate::num_::*;
use crate::req;
use crate::segs::{mp, s_isect, Mk, R};
use rand::Rng;
use rgeometry::data::*;
use rgeometry::{Error, Orientation};
use std::ops::Bound::*;

pub fn mps<T: Mk>(r: &[IP]) -> Vec<Point<T, 2>> { r.iter().map(|&p| mp::<T>(p)).collect() }
pub fn ring_of<T: Mk>(p: &Polygon<T>) -> Vec<Point<T, 2>> { p.iter_boundary().map(|c| c.point().clone()).collect() }
fn is_rot_p<T: Mk>(a: &[Point<T, 2>], b: &[Point<T, 2>]) -> bool { a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i]))) }
fn to_loc(l: PointLocation) -> Loc { match l { PointLocation::Inside => Loc::In, PointLocation::OnBoundary => Loc::On, PointLocation::Outside => Loc::Out } }

// ---------------------------------------------------------------- C10
fn construct<T: Mk>(r: &[IP]) -> Result<bool, String> { construct_scaled::<T>(r, [1, 1]) }
/// scaling the axes by positive factors changes neither simplicity nor winding
fn construct_scaled<T: Mk>(r: &[IP], sc: IP) -> Result<bool, String> {
    let z = |r: &[IP]| r.iter().map(|p| [p[0] * sc[0], p[1] * sc[1]]).collect::<Vec<IP>>();
    let pts = mps::<T>(&z(r));
    let got = Polygon::new(pts.clone());
    let s = simple(r);
    if r.len() < 3 { req!(got.as_ref().err() == Some(&Error::InsufficientVertices), "fewer than three vertices: {:?}", got.as_ref().err()); }
    match &got {
        Ok(p) => {
            req!(s, "accepted although the ring is not simple");
            req!(p.iter().cloned().collect::<Vec<_>>() == pts, "the points were reordered");
            let b = ring_of(p);
            let want = if area2(r) > 0 { pts.clone() } else { mps::<T>(&z(&rev(r))) };
            req!(is_rot_p(&b, &want), "the boundary is {b:?}, not the given ring, counterclockwise");
            req!(p.validate() == Ok(()) && p.validate_weakly() == Ok(()), "the constructed polygon does not validate");
            req!(p.orientation() == Orientation::CounterClockWise, "the constructed polygon is not counterclockwise");
            req!(p.boundary_slice().len() == r.len(), "boundary length");
        }
        Err(e) => req!(!s, "a simple ring was rejected with {e:?}"),
    }
    Ok(s)
}
fn valid<T: Mk>(r: &[IP]) -> Result<bool, String> {
    let p = Polygon::new_unchecked(mps::<T>(r));
    let n = r.len();
    let v = p.validate(); let wk = p.validate_weakly();
    let d = has_dups(r);
    let want = simple(r) && area2(r) > 0;
    req!((v == Ok(())) == want, "validate is {v:?}, exactly {want}");
    if d { req!(v.is_err(), "validate accepts duplicates"); }
    // consecutive duplicates make an empty half-open edge: judged by validate only
    if !d {
        req!((wk == Ok(())) == want, "validate_weakly is {wk:?}, exactly {want}");
        if n < 3 { req!(wk == Err(Error::InsufficientVertices), "validate_weakly: {wk:?}"); }
        else if simple(r) && area2(r) < 0 { req!(wk == Err(Error::ClockWiseViolation), "clockwise ring: {wk:?}"); }
    }
    Ok(want)
}
fn isects(es: &[(IP, IP)]) -> Result<bool, String> {
    let pts: Vec<(Point<i32, 2>, Point<i32, 2>)> = es.iter().map(|e| (mp(e.0), mp(e.1))).collect();
    let edges: Vec<DirectedEdge<'_, i32, 2>> = pts.iter().map(|(a, b)| DirectedEdge { src: a, dst: b }).collect();
    let got: Vec<(usize, usize)> = rgeometry::algorithms::segment_intersections(&edges).map(|(a, b)| {
        let ix = |e: &DirectedEdge<'_, i32, 2>| edges.iter().position(|x| std::ptr::eq(x, e)).unwrap_or(usize::MAX);
        let (i, j) = (ix(a), ix(b)); (i.min(j), i.max(j)) }).collect();
    let mut want = vec![];
    for i in 0..es.len() { for j in i + 1..es.len() {
        let m = |e: (IP, IP)| crate::segs::S { a: e.0, ai: true, b: e.1, bi: false };
        if s_isect(m(es[i]), m(es[j])) != R::None { want.push((i, j)); }
    } }
    let mut g = got.clone(); g.sort();
    req!(g == want, "segment_intersections gives {g:?}, exactly {want:?}");
    Ok(!want.is_empty())
}
pub fn c10(c: &mut Ctx) {
    c.rule("every ring of 3 and 4 vertices over a 3x3 grid (5 in thorough), random short rings over small grids, grown simple rings (reversed, rotated, with two vertices swapped, with a duplicated or colinear vertex), pairwise edge intersections of random edge lists; types i8..i64, BigInt, BigRational, f64, OrderedFloat, NotNan; oracle: exact simplicity and signed area; non-trivial: valid ring.");
    for n in 0..3usize { for x in 0..3i64 { let r: Vec<IP> = (0..n).map(|i| [i as i64 * x, x]).collect(); c.case("Polygon::new", &r, || construct::<i64>(&r)); c.case("Polygon::validate", &r, || { if r.is_empty() { return Ok(false); } valid::<i64>(&r) }); } }
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    for n in 3..=(if c.thorough { 5 } else { 4 }) {
        let tot = 9usize.pow(n);
        for k in 0..tot { let mut x = k; let r: Vec<IP> = (0..n).map(|_| { let p = g[x % 9]; x /= 9; p }).collect();
            if n == 5 && k % 7 != 0 { continue; }
            c.case("Polygon::new", &r, || construct::<i8>(&r)); c.case("Polygon::validate", &r, || valid::<i8>(&r)); }
    }
    let n = c.n(150_000, 900_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [2, 3, 5, 12][i as usize % 4];
        let len = c.rng.gen_range(3..9);
        let mut r: Vec<IP> = if c.rng.gen_range(0..4) == 0 { (0..len).map(|_| rpt(&mut c.rng, k)).collect() } else { let m = c.rng.gen_range(3..14); grow(&mut c.rng, m, k + 2) };
        let m = r.len();
        match c.rng.gen_range(0..6) {
            0 => r = rev(&r),
            1 => { let (a, b) = (c.rng.gen_range(0..m), c.rng.gen_range(0..m)); r.swap(a, b) }
            2 => { let (a, b) = (c.rng.gen_range(0..m), c.rng.gen_range(0..m)); r[a] = r[b] }
            3 => { let a = c.rng.gen_range(0..m); let p = r[a]; r.insert(a, p); r = rot(&r, a) }
            4 => { let a = c.rng.gen_range(0..m); r[a] = rpt(&mut c.rng, k) }
            _ => {}
        }
        match i % 9 {
            0 => c.case("Polygon::new", &r, || construct::<i64>(&r)),
            1 => c.case("Polygon::new", &r, || construct::<BigInt>(&r)),
            2 => c.case("Polygon::new", &r, || construct::<f64>(&r)),
            3 => c.case("Polygon::validate", &r, || valid::<ordered_float::OrderedFloat<f64>>(&r)),
            4 => c.case("Polygon::validate", &r, || valid::<i16>(&r)),
            5 => c.case("Polygon::new", &r, || construct::<BigRational>(&r)),
            6 => c.case("Polygon::new", &r, || construct::<ordered_float::NotNan<f64>>(&r)),
            7 => { let es: Vec<(IP, IP)> = (0..c.rng.gen_range(0..6)).map(|_| (rpt(&mut c.rng, k), rpt(&mut c.rng, k))).collect(); c.case("segment_intersections", &es, || isects(&es)) }
            _ => { let m = r.iter().flat_map(|p| p.iter()).map(|x| x.abs()).max().unwrap().max(1); let sc = [i64::MAX / m, c.rng.gen_range(1..=i64::MAX / m)]; c.case("Polygon::new", &(r.clone(), sc), || construct_scaled::<i64>(&r, sc)) }
        }
    }
}

// ---------------------------------------------------------------- C11
fn ring_ix<T: Mk>(r: &[IP], unchecked: bool) -> Result<bool, String> {
    let n = r.len();
    let pts = mps::<T>(r);
    let mut p = Polygon::new_unchecked(pts.clone());
    let mut want: Vec<IP> = r.to_vec();
    if !unchecked {
        let o = p.orientation();
        let e = p.ensure_ccw();
        match o {
            Orientation::CoLinear => req!(e == Err(Error::CoLinearViolation), "ensure_ccw on a colinear turn: {e:?}"),
            Orientation::ClockWise => { req!(e == Ok(()), "ensure_ccw fails"); want = rev(r) }
            Orientation::CounterClockWise => req!(e == Ok(()), "ensure_ccw fails"),
        }
    }
    let wp = mps::<T>(&want);
    req!(p.iter().cloned().collect::<Vec<_>>() == pts, "iter() does not list the points in order");
    let b = ring_of(&p);
    req!(b == wp, "boundary is {b:?}");
    let sl = p.boundary_slice();
    req!(sl.len() == n, "boundary_slice length");
    for i in 0..n {
        req!(p.point(sl[i]) == &wp[i], "boundary_slice[{i}] names another point");
        let cu = p.cursor(sl[i]);
        req!(cu.point_id() == sl[i] && cu.point() == &wp[i], "cursor({:?}) names {:?}", sl[i], cu.point_id());
        req!(cu.next().point_id() == sl[(i + 1) % n], "next of position {i}");
        req!(cu.prev().point_id() == sl[(i + n - 1) % n], "prev of position {i}");
        req!(cu.next().prev() == cu && cu.prev().next() == cu, "next and prev are not inverse");
        let d = p.direct(IndexEdge::new(sl[i], sl[(i + 1) % n]));
        req!(n == 2 || d == DirectedIndexEdge { src: sl[i], dst: sl[(i + 1) % n] }, "direct edge {i} is {d:?}");
        req!((cu.orientation(), cu.is_colinear()) == { let o = cross3(want[(i + n - 1) % n], want[i], want[(i + 1) % n]); (if o > 0 { Orientation::CounterClockWise } else if o < 0 { Orientation::ClockWise } else { Orientation::CoLinear }, o == 0) }, "turn at position {i}");
        // arcs
        for (j, kind) in [(i, 0), ((i + 2) % n, 1), ((i + n - 1) % n, 1), ((i + 1) % n, 2), (i, 1), ((i + n / 2) % n, 2)] {
            let e = p.cursor(sl[j]);
            let (it, len) = match kind { 0 => (cu.to(Unbounded), n), 1 => (cu.to(Included(e)), (j + n - i) % n + 1), _ => (cu.to(Excluded(e)), (j + n - i - 1) % n + 1) };
            let ids: Vec<PointId> = it.clone().map(|c| c.point_id()).collect();
            let w2: Vec<PointId> = (0..len).map(|k| sl[(i + k) % n]).collect();
            req!(ids == w2, "the arc from {i} to {j} ({kind}) visits {ids:?}, not {w2:?}");
            req!(it.len() == len && it.size_hint() == (len, Some(len)), "the arc from {i} to {j} has length {}, not {len}", it.len());
            let back: Vec<PointId> = it.clone().rev().map(|c| c.point_id()).collect();
            let mut w3 = w2.clone(); w3.reverse();
            req!(back == w3, "the reversed arc from {i} to {j} visits {back:?}, not {w3:?}");
            // interleaved from both ends
            let mut it = it; let mut lo = 0; let mut hi = len;
            while lo < hi {
                req!(it.len() == hi - lo, "length while iterating");
                if (lo * 7 + hi * 5 + i) % 3 == 0 { hi -= 1; req!(it.next_back().map(|c| c.point_id()) == Some(w2[hi]), "next_back after {lo} steps"); }
                else { req!(it.next().map(|c| c.point_id()) == Some(w2[lo]), "next after {lo} steps"); lo += 1; }
            }
            req!(it.len() == 0 && it.next().is_none() && it.next_back().is_none(), "an exhausted arc goes on");
        }
    }
    let es: Vec<(Point<T, 2>, Point<T, 2>)> = p.iter_boundary_edges().map(|e| (e.src.clone(), e.dst.clone())).collect();
    req!(es.len() == n && (0..n).all(|i| es[i].0 == wp[i] && es[i].1 == wp[(i + 1) % n]), "boundary edges are {es:?}");
    // maps keep the structure
    let two = T::mk(2);
    let m = p.clone().map(|x| x + T::mk(1));
    let mp1: Vec<Point<T, 2>> = want.iter().map(|q| mp::<T>([q[0] + 1, q[1] + 1])).collect();
    req!(ring_of(&m) == mp1, "map changes the ring");
    let _ = two;
    let m = p.clone().map_points(|q| Point::new([q.array[1].clone(), q.array[0].clone()]));
    let mp2: Vec<Point<T, 2>> = want.iter().map(|q| mp::<T>([q[1], q[0]])).collect();
    req!(ring_of(&m) == mp2, "map_points changes the ring");
    let mut q = p.clone();
    for x in q.iter_mut() { *x = Point::new([x.array[0].clone(), x.array[0].clone()]); }
    req!(ring_of(&q) == want.iter().map(|q| mp::<T>([q[0], q[0]])).collect::<Vec<_>>(), "iter_mut skips points");
    Ok(n > 3)
}
fn casts(r: &[IP]) -> Result<bool, String> {
    let mut p = Polygon::new_unchecked(mps::<i32>(r));
    let _ = p.ensure_ccw();
    let b = ring_of(&p);
    let f = p.clone().float();
    let fr: Vec<Point<ordered_float::OrderedFloat<f64>, 2>> = f.iter_boundary().map(|c| *c.point()).collect();
    req!(fr.len() == b.len() && (0..b.len()).all(|i| fr[i].array[0].0 == b[i].array[0] as f64 && fr[i].array[1].0 == b[i].array[1] as f64), "float changes the ring");
    let g: Polygon<i64> = p.clone().cast();
    let gr = ring_of(&g);
    req!(gr.len() == b.len() && (0..b.len()).all(|i| gr[i].array == [b[i].array[0] as i64, b[i].array[1] as i64]), "cast changes the ring");
    Ok(true)
}
fn equals<T: Mk>(a: &[IP], b: &[IP]) -> Result<bool, String> {
    let (p, q) = (Polygon::new_unchecked(mps::<T>(a)), Polygon::new_unchecked(mps::<T>(b)));
    let want = is_rot(a, b);
    req!(p.equals(&q) == want && q.equals(&p) == want, "equals is {} / {}, exactly {want}", p.equals(&q), q.equals(&p));
    Ok(want)
}
pub fn is_ear(r: &[IP], i: usize) -> bool {
    let n = r.len(); let (a, b, c) = (r[(i + n - 1) % n], r[i], r[(i + 1) % n]);
    cross3(a, b, c) > 0 && (0..n).all(|k| k == i || k == (i + 1) % n || k == (i + n - 1) % n || !(cross3(a, b, r[k]) >= 0 && cross3(b, c, r[k]) >= 0 && cross3(c, a, r[k]) >= 0))
}
fn ears<T: Mk>(r: &[IP]) -> Result<bool, String> {
    let p = Polygon::new_unchecked(mps::<T>(r));
    for (i, cu) in p.iter_boundary().enumerate() { req!(cu.is_ear() == is_ear(r, i), "is_ear at vertex {i} is {}", cu.is_ear()); }
    Ok(r.len() > 3)
}
pub fn c11(c: &mut Ctx) {
    c.rule("convex rings of up to 257 vertices and random rings of 2 to 12 vertices (valid or not, either winding; reversed in place by ensure_ccw): every cursor, arc (three bounds, both directions, interleaved), edge, directed edge, map; rotation equality on rotated, reversed, periodic and perturbed rings; ears of random rings; oracle: index arithmetic on the vertex list; non-trivial: more than 3 vertices.");
    // long rings
    for &m in &[31i64, 64, 65, 100, 129, 257] {
        let r: Vec<IP> = (0..m).map(|i| [i, i * i]).collect();
        for r in [r.clone(), rev(&r)] {
            c.case("traversal", &r, || ring_ix::<i64>(&r, false));
            c.case("cast", &r, || casts(&r));
            let b = rot(&r, m as usize / 2 + 1); let mut d = b.clone(); d.swap(3, 7);
            c.case("equals", &(r.clone(), b.clone()), || equals::<i32>(&r, &b));
            c.case("equals", &(r.clone(), d.clone()), || equals::<i32>(&r, &d));
        }
    }
    let n = c.n(120_000, 400_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [1, 3, 6][i as usize % 3];
        let m = c.rng.gen_range(2..12);
        let mut r: Vec<IP> = if i % 2 == 0 { let m = m.max(3); grow(&mut c.rng, m, k + 3) } else { (0..m).map(|_| rpt(&mut c.rng, k)).collect() };
        if c.rng.gen() { r = rev(&r); }
        let unchecked = r.len() < 3 || i % 5 == 0;
        match i % 4 { 0 => c.case("traversal", &r, || ring_ix::<i64>(&r, unchecked)), 1 => c.case("traversal", &r, || ring_ix::<i8>(&r, unchecked)), 2 => c.case("traversal", &r, || ring_ix::<BigInt>(&r, unchecked)), _ => c.case("traversal", &r, || ring_ix::<f64>(&r, unchecked)) }
        c.case("cast", &r, || casts(&r));
        if r.len() >= 3 { let q = if area2(&r) < 0 { rev(&r) } else { r.clone() }; c.case("is_ear", &q, || ears::<i64>(&q)); }
        // periodic rings and near misses
        let mut a = r.clone();
        if i % 3 == 0 { let b = a.clone(); a.extend(b); }
        let (x, y) = (c.rng.gen_range(0..a.len()), c.rng.gen_range(0..a.len()));
        let mut b = rot(&a, x);
        match c.rng.gen_range(0..5) { 0 => b[y] = rpt(&mut c.rng, k), 1 => b = rev(&b), 2 => { b.remove(y); } , 3 => b.swap(x, y), _ => {} }
        if b.len() >= 1 { c.case("equals", &(a.clone(), b.clone()), || equals::<i16>(&a, &b)); }
    }
}

// ---------------------------------------------------------------- C12
fn areas(r: &[IP], is_simple: bool) -> Result<bool, String> {
    let a = area2(r);
    let bb = (0..2).map(|d| (r.iter().map(|p| p[d]).min().unwrap(), r.iter().map(|p| p[d]).max().unwrap())).collect::<Vec<_>>();
    fn one<T: Mk + Into<BigInt>>(r: &[IP], a: i128, bb: &[(i64, i64)]) -> Result<(), String> {
        let p = Polygon::new_unchecked(mps::<T>(r));
        let got: BigInt = p.signed_area_2x();
        req!(got == BigInt::from(a), "signed_area_2x is {got}, exactly {a}");
        let (lo, hi) = p.bounding_box();
        req!(lo == mp::<T>([bb[0].0, bb[1].0]) && hi == mp::<T>([bb[0].1, bb[1].1]), "bounding box is {lo:?} {hi:?}, exactly {bb:?}");
        Ok(())
    }
    if r.iter().all(|p| p.iter().all(|x| i8::try_from(*x).is_ok())) { one::<i8>(r, a, &bb)?; one::<i16>(r, a, &bb)?; }
    one::<i64>(r, a, &bb)?; one::<BigInt>(r, a, &bb)?;
    let p = Polygon::new_unchecked(mps::<i64>(r));
    let got: i128 = p.signed_area_2x();
    req!(got == a, "signed_area_2x::<i128> is {got}, exactly {a}");
    let q: Polygon<BigRational> = Polygon::new_unchecked(mps::<BigRational>(r));
    let sa: BigRational = q.signed_area();
    req!(sa == BigRational::new(BigInt::from(a), BigInt::from(2)), "signed_area is {sa}, exactly {a}/2");
    // turning direction: the sign of the area for simple rings
    if is_simple {
        let o = p.orientation();
        req!(o == if a > 0 { Orientation::CounterClockWise } else { Orientation::ClockWise }, "orientation is {o:?}, area2 is {a}");
        let mut s = q.clone();
        req!(s.ensure_ccw().is_ok(), "ensure_ccw fails on a simple ring");
        let sa: BigRational = s.signed_area_2x();
        req!(sa == BigRational::from(BigInt::from(a.abs())), "area after ensure_ccw is {sa}");
    }
    if a != 0 {
        // centroid: sum (p+q) p x q / (3 * 2A), invariant under rotation of the ring, equivariant under translation
        let n = r.len();
        let (mut sx, mut sy) = (BigInt::zero(), BigInt::zero());
        for i in 0..n { let (p, t) = (r[i], r[(i + 1) % n]); let cr = BigInt::from(cross(w(p), w(t))); sx += BigInt::from(p[0] as i128 + t[0] as i128) * &cr; sy += BigInt::from(p[1] as i128 + t[1] as i128) * &cr; }
        let d = BigInt::from(3) * BigInt::from(a);
        let cen = q.centroid();
        req!(cen.array == [BigRational::new(sx, d.clone()), BigRational::new(sy, d)], "centroid is {cen:?}");
    }
    Ok(a != 0)
}
fn norm(r: &[IP]) -> Result<bool, String> {
    let p = Polygon::new_unchecked(mps::<ordered_float::OrderedFloat<f64>>(r));
    let q = p.normalize();
    let (lo, hi) = q.bounding_box();
    let (wd, ht) = ((hi.array[0] - lo.array[0]).0, (hi.array[1] - lo.array[1]).0);
    req!((wd.max(ht) - 1.0).abs() < 1e-9, "normalize: the larger side is {}", wd.max(ht));
    let c = q.centroid();
    req!(c.array[0].0.abs() < 1e-6 && c.array[1].0.abs() < 1e-6, "normalize: the centroid is {c:?}");
    Ok(true)
}
pub fn c12(c: &mut Ctx) {
    c.rule("random rings (simple and not, either winding) over small grids, the full i8 range and coordinates up to 2^40: signed area, bounding box, turning direction, centroid with rationals, normalisation of simple rings; oracle: shoelace sum in 128-bit / big integers; non-trivial: non-zero area.");
    let n = c.n(45_000, 500_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [2, 5, 12][i as usize % 3];
        let m = c.rng.gen_range(3..12);
        let mut r: Vec<IP> = if i % 2 == 0 { grow(&mut c.rng, m, k + 3) } else { (0..m).map(|_| rpt(&mut c.rng, k)).collect() };
        if c.rng.gen() { r = rev(&r); }
        let mut sim = simple(&r);
        match i % 5 {
            0 => { sim = false; let v = [i8::MIN as i64, -127, -1, 0, 1, 127]; for p in r.iter_mut() { for x in p.iter_mut() { *x = v[c.rng.gen_range(0..6)] } } }
            1 => { let s = c.rng.gen_range(1..1i64 << [20, 32, 48][i as usize / 5 % 3]); for p in r.iter_mut() { for x in p.iter_mut() { *x *= s } } }
            2 => { let s = [rpt(&mut c.rng, 1 << 40)]; for p in r.iter_mut() { p[0] += s[0][0]; p[1] += s[0][1] } }
            _ => {}
        }
        c.case("measures", &r, || areas(&r, sim));
        if i % 5 == 3 && i % 2 == 0 && sim { c.case("normalize", &r, || norm(&r)); }
    }
}

// ---------------------------------------------------------------- C13
fn loc<T: Mk>(r: &[IP], qs: &[IP], sc: i64) -> Result<bool, String> {
    let z: Vec<IP> = r.iter().map(|p| [p[0] * sc, p[1] * sc]).collect();
    let p = Polygon::new_unchecked(mps::<T>(&z));
    let mut inner = false;
    for &t in qs {
        let want = locate(r, t);
        let got = to_loc(p.locate(&mp::<T>([t[0] * sc, t[1] * sc])));
        req!(got == want, "locate({t:?}) is {got:?}, exactly {want:?}");
        inner |= want == Loc::In;
    }
    Ok(inner)
}
fn queries(c: &mut Ctx, r: &[IP], k: i64) -> Vec<IP> {
    let mut q: Vec<IP> = r.to_vec();
    for _ in 0..6 { q.push(rpt(&mut c.rng, k)); }
    for _ in 0..4 { let (a, b) = (r[c.rng.gen_range(0..r.len())], r[c.rng.gen_range(0..r.len())]); q.push([(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]); q.push([a[0], b[1]]); q.push([a[0] + 1, a[1]]); q.push([b[0] - 1, b[1]]); }
    q
}
pub fn c13(c: &mut Ctx) {
    c.rule("grown simple rings (colinear vertices, horizontal edges, either winding) of 3 to 14 vertices, with query points at vertices, on edges, level with vertices, and random; all grid points for small rings; types i8..i64 (scaled to the full range), BigInt, BigRational, f64, OrderedFloat, NotNan; oracle: exact boundary test and winding number; non-trivial: an interior query.");
    let n = c.n(15_000, 500_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [2, 3, 6, 12][i as usize % 4];
        let m = c.rng.gen_range(3..15);
        let mut r = grow(&mut c.rng, m, k);
        if i % 7 == 0 { r = rev(&r); }
        let q = if k <= 3 { (-k - 1..=k + 1).flat_map(|x| (-k - 1..=k + 1).map(move |y| [x, y])).collect() } else { queries(c, &r, k) };
        let inp = (r.clone(), q.clone());
        match i % 8 {
            0 => c.case("locate", &inp, || loc::<i64>(&r, &q, 1)),
            1 => c.case("locate", &inp, || loc::<i8>(&r, &q, 127 / (k + 1))),
            2 => c.case("locate", &inp, || loc::<BigInt>(&r, &q, 3)),
            3 => c.case("locate", &inp, || loc::<f64>(&r, &q, 1)),
            4 => c.case("locate", &inp, || loc::<i64>(&r, &q, i64::MAX / (k + 1))),
            5 => c.case("locate", &inp, || loc::<ordered_float::NotNan<f64>>(&r, &q, 1)),
            6 => c.case("locate", &inp, || loc::<BigRational>(&r, &q, 1)),
            _ => c.case("locate", &inp, || loc::<i32>(&r, &q, i32::MAX as i64 / (k + 1))),
        }
    }
}

// ---------------------------------------------------------------- C14
fn cloc<T: Mk>(r: &[IP], qs: &[IP], sc: i64) -> Result<bool, String> {
    let z: Vec<IP> = r.iter().map(|p| [p[0] * sc, p[1] * sc]).collect();
    let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(mps::<T>(&z)));
    req!(p.validate() == Ok(()), "a strictly convex ring does not validate: {:?}", p.validate());
    for &t in qs {
        let want = locate(r, t);
        let x = mp::<T>([t[0] * sc, t[1] * sc]);
        let got = to_loc(p.locate(&x));
        req!(got == want, "PolygonConvex::locate({t:?}) is {got:?}, exactly {want:?}");
        let got = to_loc(p.polygon().locate(&x));
        req!(got == want, "Polygon::locate({t:?}) is {got:?}, exactly {want:?}");
    }
    Ok(r.len() > 3)
}
fn cvalid<T: Mk>(r: &[IP]) -> Result<bool, String> {
    let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(mps::<T>(r)));
    let want = strictly_convex(r) && simple(r);
    let got = p.validate();
    req!((got == Ok(())) == want, "validate is {got:?}, exactly {want}");
    Ok(want)
}
pub fn c14(c: &mut Ctx) {
    c.rule("convex rings (hulls of random point sets, up to 20 vertices, every rotation) with query points at vertices, edges, diagonals and random; every ring of up to 5 vertices over a 3x3 grid, stars winding twice, rings with one vertex moved, for validate; types i8..i64 at full range, BigInt, BigRational, f64 and wrappers; oracle: all other vertices strictly left of every edge, exact winding number; non-trivial: more than 3 vertices.");
    let star: Vec<IP> = vec![[0, 100], [-59, -81], [95, 31], [-95, 31], [59, -81]];
    c.case("validate", &star, || cvalid::<i64>(&star));
    let star2: Vec<IP> = vec![[100, 0], [-22, 97], [-90, -43], [62, -78], [62, 78], [-90, 43], [-22, -97]];
    c.case("validate", &star2, || cvalid::<i64>(&star2));
    let g: Vec<IP> = (0..9).map(|i| [i / 3, i % 3]).collect();
    for n in 3..=5u32 { for k in 0..9usize.pow(n) { if n == 5 && k % 5 != 0 { continue; } let mut x = k; let r: Vec<IP> = (0..n).map(|_| { let p = g[x % 9]; x /= 9; p }).collect(); c.case("validate", &r, || cvalid::<i8>(&r)); } }
    let n = c.n(60_000, 500_000);
    for i in 0..n {
        if c.saturated() || (i % 64 == 0 && !c.time_left()) { break; }
        let k = [3, 6, 12, 40][i as usize % 4];
        let m = c.rng.gen_range(3..24);
        let r = rconvex(&mut c.rng, m, k);
        let q = if k <= 3 { (-k - 1..=k + 1).flat_map(|x| (-k - 1..=k + 1).map(move |y| [x, y])).collect() } else { queries(c, &r, k) };
        let inp = (r.clone(), q.clone());
        match i % 8 {
            0 => c.case("locate", &inp, || cloc::<i64>(&r, &q, 1)),
            1 => c.case("locate", &inp, || cloc::<i8>(&r, &q, 127 / (k + 1))),
            2 => c.case("locate", &inp, || cloc::<BigInt>(&r, &q, 3)),
            3 => c.case("locate", &inp, || cloc::<f64>(&r, &q, 1)),
            4 => c.case("locate", &inp, || cloc::<i64>(&r, &q, i64::MAX / (k + 1))),
            5 => { let mut z = r.clone(); let j = c.rng.gen_range(0..z.len()); z[j] = rpt(&mut c.rng, k); c.case("validate", &z, || cvalid::<i32>(&z)) }
            6 => { let mut z = r.clone(); let (a, b) = (c.rng.gen_range(0..z.len()), c.rng.gen_range(0..z.len())); z.swap(a, b); c.case("validate", &z, || cvalid::<BigRational>(&z)) }
            _ => c.case("locate", &inp, || cloc::<i32>(&r, &q, i32::MAX as i64 / (k + 1))),
        }
    }
}
