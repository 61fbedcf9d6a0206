//! Exact integer geometry of vertex rings (independent of the crate under test).
use crate::num_::*;
use crate::segs::{s_has, s_isect, R, S};
use rand::rngs::SmallRng;
use rand::Rng;

pub fn edge(r: &[IP], i: usize) -> S { S { a: r[i], ai: true, b: r[(i + 1) % r.len()], bi: false } }
pub fn has_dups(r: &[IP]) -> bool { let mut v = r.to_vec(); v.sort(); v.windows(2).any(|w| w[0] == w[1]) }
/// no duplicates, half-open edges pairwise disjoint
pub fn simple(r: &[IP]) -> bool {
    if r.len() < 3 || has_dups(r) { return false; }
    for i in 0..r.len() { for j in 0..i { if s_isect(edge(r, i), edge(r, j)) != R::None { return false; } } }
    true
}
/// the same, by orientations alone: for large coordinates
pub fn simple_big(r: &[IP]) -> bool {
    let n = r.len();
    if n < 3 || has_dups(r) { return false; }
    let on = |a: IP, b: IP, p: IP| cross3(a, b, p) == 0 && a[0].min(b[0]) <= p[0] && p[0] <= a[0].max(b[0]) && a[1].min(b[1]) <= p[1] && p[1] <= a[1].max(b[1]);
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        for j in 0..n { if j != i && j != (i + 1) % n && on(a, b, r[j]) { return false; } }
        for j in 0..i {
            let (x, y) = (r[j], r[(j + 1) % n]);
            if cross3(a, b, x).signum() * cross3(a, b, y).signum() < 0 && cross3(x, y, a).signum() * cross3(x, y, b).signum() < 0 { return false; }
        }
    }
    true
}
pub fn area2(r: &[IP]) -> i128 { (0..r.len()).map(|i| cross(w(r[i]), w(r[(i + 1) % r.len()]))).sum() }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc { In, On, Out }
/// membership in the closed region bounded by a simple ring: winding number of the boundary
pub fn locate(r: &[IP], p: IP) -> Loc {
    let n = r.len();
    for i in 0..n { if s_has(S { bi: true, ..edge(r, i) }, w(p), 1) { return Loc::On; } }
    let mut wn = 0i64;
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        if a[1] <= p[1] { if b[1] > p[1] && cross3(a, b, p) > 0 { wn += 1 } } else if b[1] <= p[1] && cross3(a, b, p) < 0 { wn -= 1 }
    }
    if wn != 0 { Loc::In } else { Loc::Out }
}
pub fn rot(r: &[IP], k: usize) -> Vec<IP> { let n = r.len(); (0..n).map(|i| r[(i + k) % n]).collect() }
pub fn rev(r: &[IP]) -> Vec<IP> { let mut v = r.to_vec(); v.reverse(); v }
pub fn is_rot(a: &[IP], b: &[IP]) -> bool { a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| rot(a, k) == b)) }
/// convex hull, counterclockwise from the lexicographically least point, no colinear vertices
pub fn hull(pts: &[IP]) -> Vec<IP> {
    let mut v = pts.to_vec(); v.sort(); v.dedup();
    if v.len() < 3 { return v; }
    let half = |it: &mut dyn Iterator<Item = &IP>| { let mut h: Vec<IP> = vec![]; for &p in it { while h.len() >= 2 && cross3(h[h.len() - 2], h[h.len() - 1], p) <= 0 { h.pop(); } h.push(p); } h.pop(); h };
    let mut a = half(&mut v.iter()); let b = half(&mut v.iter().rev()); a.extend(b); a
}
/// strictly convex, counterclockwise, going around once
pub fn strictly_convex(r: &[IP]) -> bool {
    let n = r.len();
    n >= 3 && (0..n).all(|i| (0..n).all(|j| j == i || j == (i + 1) % n || cross3(r[i], r[(i + 1) % n], r[j]) > 0))
}
pub fn rpt(g: &mut SmallRng, k: i64) -> IP { [g.gen_range(-k..=k), g.gen_range(-k..=k)] }
/// a random simple counterclockwise ring: grow a triangle edge by edge, keeping it simple
pub fn grow(g: &mut SmallRng, n: usize, k: i64) -> Vec<IP> {
    loop {
        let mut r = vec![rpt(g, k), rpt(g, k), rpt(g, k)];
        let c = cross3(r[0], r[1], r[2]);
        if c == 0 { continue; }
        if c < 0 { r.swap(1, 2); }
        let mut tries = 0;
        while r.len() < n && tries < 12 * n {
            tries += 1;
            let i = g.gen_range(0..r.len());
            let (a, b) = (r[i], r[(i + 1) % r.len()]);
            // sometimes exactly on the edge, on its extension, or level with another vertex
            let p = match g.gen_range(0..6) {
                0 => { let d = sub(b, a); let q = gcd(d[0].abs(), d[1].abs()); if q < 2 { continue } let t = g.gen_range(1..q); [a[0] + (d[0] / q * t) as i64, a[1] + (d[1] / q * t) as i64] }
                1 => { let v = r[g.gen_range(0..r.len())]; [v[0], g.gen_range(-k..=k)] }
                2 => { let v = r[g.gen_range(0..r.len())]; [g.gen_range(-k..=k), v[1]] }
                _ => rpt(g, k),
            };
            if r.contains(&p) { continue; }
            let mut s = r.clone();
            s.insert(i + 1, p);
            let m = s.len();
            // only the two new edges can spoil it
            let ok = [i, i + 1].iter().all(|&e| (0..m).all(|j| j == e || s_isect(edge(&s, e), edge(&s, j)) == R::None));
            if ok { r = s; }
        }
        if area2(&r) > 0 { let o = g.gen_range(0..r.len()); return rot(&r, o); }
    }
}
pub fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }
/// a random strictly convex ring with exactly the hull of m random points
pub fn rconvex(g: &mut SmallRng, m: usize, k: i64) -> Vec<IP> {
    loop {
        let pts: Vec<IP> = (0..m).map(|_| { let mut p = rpt(g, k); if m > 6 { while dist2(p, [0, 0]) > (k * k + k) as i128 { p = rpt(g, k) } } p }).collect();
        let h = hull(&pts);
        if h.len() >= 3 && strictly_convex(&h) { let o = g.gen_range(0..h.len()); return rot(&h, o); }
    }
}
