// Monotone polygons: the test, and building one from any list of points.
verus! {
// along d first, then x, then y
pub open spec fn mcmp(d: P2, a: P2, b: P2) -> Ordering { if dot2(d, a) != dot2(d, b) { rcmp(dot2(d, a), dot2(d, b)) } else { plex(a, b) } }
pub open spec fn heights(d: P2, v: Seq<P2>) -> Seq<real> { Seq::new(v.len(), |i: int| dot2(d, v[i])) }
// step t of the ring (from vertex t to the next) lies between vertices i and j, going forward
pub open spec fn within(i: int, j: int, t: int) -> bool { if i <= j { i <= t < j } else { t >= i || t < j } }
// from i forward to j the ring never goes down, and from j on to i never up
pub open spec fn split_at(h: Seq<real>, i: int, j: int) -> bool {
    0 <= i < h.len() && 0 <= j < h.len() && forall|t: int| #![trigger h[t]] 0 <= t < h.len() ==> if within(i, j, t) { h[t] <= h[wrapi(t + 1, h.len() as int)] } else { h[t] >= h[wrapi(t + 1, h.len() as int)] }
}
// the ring splits into two chains, one rising and one falling along d
pub open spec fn monotone(d: P2, v: Seq<P2>) -> bool { exists|i: int, j: int| split_at(heights(d, v), i, j) }
pub open spec fn pxs<T: PolygonScalar>(s: Seq<Point<T, 2>>) -> Seq<P2> { Seq::new(s.len(), |i: int| pxy(s[i])) }
pub open spec fn flat(s: Seq<P2>) -> bool { forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() ==> cross3(#[trigger] s[i], #[trigger] s[j], #[trigger] s[k]) == 0real }
pub open spec fn same_set(a: Seq<P2>, b: Seq<P2>) -> bool { (forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) && forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]) }
} // verus!
pub mod mono { use super::*; verus! {
pub proof fn mcmp_laws(d: P2, a: P2, b: P2, c: P2)
    ensures
        mcmp(d, a, a) == Ordering::Equal, mcmp(d, b, a) == orev(mcmp(d, a, b)), (mcmp(d, a, b) == Ordering::Equal) == (a == b),
        mcmp(d, a, b) != Ordering::Greater && mcmp(d, b, c) != Ordering::Greater ==> mcmp(d, a, c) != Ordering::Greater,
        mcmp(d, a, b) == Ordering::Less && mcmp(d, b, c) != Ordering::Greater ==> mcmp(d, a, c) == Ordering::Less,
        mcmp(d, a, b) != Ordering::Greater && mcmp(d, b, c) == Ordering::Less ==> mcmp(d, a, c) == Ordering::Less,
{ }
// ---- the test
proof fn nx(n: int, t: int) -> (u: int) requires 0 <= t < n ensures u == wrapi(t + 1, n), 0 <= u < n { wrapi(t + 1, n) }
proof fn descend(h: Seq<real>, x: int, y: int, n: int)
    requires n == h.len(), 0 <= x < n, 0 <= y < n, x != y, forall|t: int| #![trigger h[t]] 0 <= t < n && within(x, y, t) ==> h[t] >= h[wrapi(t + 1, n)]
    ensures h[x] >= h[y]
    decreases if x <= y { y - x } else { y - x + n }
{
    let z = wrapi(x + 1, n);
    assert(within(x, y, x));
    assert(h[x] >= h[z]);
    if z != y {
        assert forall|t: int| #![trigger h[t]] 0 <= t < n && within(z, y, t) implies h[t] >= h[wrapi(t + 1, n)] by { assert(within(x, y, t)); }
        descend(h, z, y, n);
    }
}
proof fn neg_seq(h: Seq<real>) -> (g: Seq<real>) ensures g.len() == h.len(), forall|t: int| #![trigger h[t]] #![trigger g[t]] 0 <= t < h.len() ==> g[t] == -h[t] { Seq::new(h.len(), |t: int| -h[t]) }
proof fn ascend(h: Seq<real>, x: int, y: int, n: int)
    requires n == h.len(), 0 <= x < n, 0 <= y < n, x != y, forall|t: int| #![trigger h[t]] 0 <= t < n && within(x, y, t) ==> h[t] <= h[wrapi(t + 1, n)]
    ensures h[x] <= h[y]
{
    let g = neg_seq(h);
    assert forall|t: int| #![trigger g[t]] 0 <= t < n && within(x, y, t) implies g[t] >= g[wrapi(t + 1, n)] by { let _ = h[t]; let _ = h[wrapi(t + 1, n)]; }
    descend(g, x, y, n);
    let _ = h[x]; let _ = h[y];
}
// a place where the chain from the least to the greatest vertex goes down rules out every split
proof fn no_split(h: Seq<real>, i: int, j: int, t: int, a: int, b: int)
    requires
        0 <= i < h.len(), 0 <= j < h.len(), forall|k: int| 0 <= k < h.len() ==> h[i] <= #[trigger] h[k] <= h[j],
        0 <= t < h.len(), within(i, j, t), h[t] > h[wrapi(t + 1, h.len() as int)],
        0 <= a < h.len(), 0 <= b < h.len(), a != b,
        forall|s: int| #![trigger h[s]] 0 <= s < h.len() ==> if within(a, b, s) { h[s] <= h[wrapi(s + 1, h.len() as int)] } else { h[s] >= h[wrapi(s + 1, h.len() as int)] },
    ensures false
{
    let n = h.len() as int; let u = wrapi(t + 1, n);
    assert(!within(a, b, t));
    let pos = |x: int| if x >= u { x - u } else { x - u + n };
    // from u the ring falls up to a, and from b to t
    if pos(j) <= pos(a) {
        if u != j {
            assert forall|s: int| #![trigger h[s]] 0 <= s < n && within(u, j, s) implies h[s] >= h[wrapi(s + 1, n)] by { assert(!within(a, b, s)); }
            descend(h, u, j, n);
        }
        assert(h[u] >= h[j]);
        assert(false);
    }
    if pos(i) >= pos(b) {
        if i != t {
            assert forall|s: int| #![trigger h[s]] 0 <= s < n && within(i, t, s) implies h[s] >= h[wrapi(s + 1, n)] by { assert(!within(a, b, s)); }
            descend(h, i, t, n);
        }
        assert(h[i] >= h[t]);
        assert(false);
    }
    assert(pos(t) == n - 1);
    assert(pos(a) < pos(j) && pos(j) < pos(i) && pos(i) < pos(b));
    assert forall|s: int| #![trigger h[s]] 0 <= s < n && within(j, i, s) implies h[s] <= h[wrapi(s + 1, n)] by { assert(within(a, b, s)); }
    ascend(h, j, i, n);
    let _ = h[t]; let _ = h[u];
}
pub open spec fn extremes(h: Seq<real>, i: int, j: int) -> bool { 0 <= i < h.len() && 0 <= j < h.len() && forall|k: int| 0 <= k < h.len() ==> h[i] <= #[trigger] h[k] <= h[j] }
pub proof fn down_step(h: Seq<real>, i: int, j: int, t: int)
    requires extremes(h, i, j), 0 <= t < h.len(), within(i, j, t) || i == j, h[t] > h[wrapi(t + 1, h.len() as int)]
    ensures forall|a: int, b: int| !#[trigger] split_at(h, a, b)
{
    let n = h.len() as int; let u = wrapi(t + 1, n);
    let _ = h[t]; let _ = h[u];
    assert forall|a: int, b: int| !#[trigger] split_at(h, a, b) by {
        if split_at(h, a, b) {
            if a == b { assert(u != t); descend(h, u, t, n); }
            else { no_split(h, i, j, t, a, b); }
        }
    }
}
pub proof fn up_step(h: Seq<real>, i: int, j: int, t: int)
    requires extremes(h, i, j), 0 <= t < h.len(), within(j, i, t) || i == j, h[t] < h[wrapi(t + 1, h.len() as int)]
    ensures forall|a: int, b: int| !#[trigger] split_at(h, a, b)
{
    let n = h.len() as int; let g = neg_seq(h);
    let _ = h[t]; let _ = h[wrapi(t + 1, n)];
    assert(extremes(g, j, i)) by { assert forall|k: int| 0 <= k < n implies g[j] <= #[trigger] g[k] <= g[i] by { let _ = h[k]; let _ = h[i]; let _ = h[j]; } }
    assert(i != j) ;
    assert forall|a: int, b: int| !#[trigger] split_at(h, a, b) by {
        if split_at(h, a, b) {
            if a == b { let _ = h[t]; assert(false); }
            assert forall|s: int| #![trigger g[s]] 0 <= s < n implies (if within(b, a, s) { g[s] <= g[wrapi(s + 1, n)] } else { g[s] >= g[wrapi(s + 1, n)] }) by { let _ = h[s]; let _ = h[wrapi(s + 1, n)]; }
            no_split(g, j, i, t, b, a);
        }
    }
}
pub proof fn both_chains(h: Seq<real>, i: int, j: int)
    requires extremes(h, i, j),
        forall|t: int| #![trigger h[t]] 0 <= t < h.len() && (within(i, j, t) || i == j) ==> h[t] <= h[wrapi(t + 1, h.len() as int)],
        forall|t: int| #![trigger h[t]] 0 <= t < h.len() && (within(j, i, t) || i == j) ==> h[t] >= h[wrapi(t + 1, h.len() as int)],
    ensures split_at(h, i, j)
{ }
pub proof fn mcmp_all(d: P2) ensures
        forall|a: P2, b: P2| #[trigger] mcmp(d, b, a) == orev(mcmp(d, a, b)),
        forall|a: P2, b: P2, c: P2| #[trigger] mcmp(d, a, b) != Ordering::Greater && #[trigger] mcmp(d, b, c) != Ordering::Greater ==> mcmp(d, a, c) != Ordering::Greater,
        forall|a: P2, b: P2| #[trigger] mcmp(d, a, b) == if rcmp(dot2(d, a), dot2(d, b)) == Ordering::Equal { plex(a, b) } else { rcmp(dot2(d, a), dot2(d, b)) },
{
    assert forall|a: P2, b: P2| #[trigger] mcmp(d, b, a) == orev(mcmp(d, a, b)) by { mcmp_laws(d, a, b, a); }
    assert forall|a: P2, b: P2, c: P2| #[trigger] mcmp(d, a, b) != Ordering::Greater && #[trigger] mcmp(d, b, c) != Ordering::Greater implies mcmp(d, a, c) != Ordering::Greater by { mcmp_laws(d, a, b, c); }
}
pub open spec fn on_ring<T>(c: Cursor<'_, T>, p: Polygon<T>, i: int) -> bool { *c.poly() == p && c.pos() == (Position { ring_id: RingId(0), size: p.rings@[0]@.len() as usize, position_id: PositionId(i as usize) }) }
// steps from i forward to j; all the way round when they are the same
pub open spec fn gap(i: int, j: int, n: int) -> int { if i < j { j - i } else { j - i + n } }
pub open spec fn climbs(h: Seq<real>, i: int, k: int) -> bool { forall|s: int| 0 <= s < k ==> #[trigger] climb_at(h, i, s) }
pub open spec fn climb_at(h: Seq<real>, i: int, s: int) -> bool { h[wrapi(i + s, h.len() as int)] <= h[wrapi(wrapi(i + s, h.len() as int) + 1, h.len() as int)] }
pub open spec fn falls(h: Seq<real>, i: int, k: int) -> bool { forall|s: int| 0 <= s < k ==> #[trigger] fall_at(h, i, s) }
pub open spec fn fall_at(h: Seq<real>, i: int, s: int) -> bool { h[wrapi(i + s, h.len() as int)] >= h[wrapi(wrapi(i + s, h.len() as int) + 1, h.len() as int)] }
pub open spec fn set_up<'a, T: PolygonScalar>(d: P2, p: Polygon<T>, lo: Cursor<'a, T>, hi: Cursor<'a, T>, h: Seq<real>, i: int, j: int) -> bool {
    wf(p) && on_ring(lo, p, i) && on_ring(hi, p, j) && h == heights(d, ring_vs(p)) && extremes(h, i, j) && h.len() <= usize::MAX
}
pub proof fn start<'a, T: PolygonScalar>(d: P2, p: &'a Polygon<T>, lo: Cursor<'a, T>, hi: Cursor<'a, T>, x: int, y: int)
    requires
        wf(*p), on_ring(lo, *p, x), on_ring(hi, *p, y), 0 <= x < p.rings@[0]@.len(), 0 <= y < p.rings@[0]@.len(),
        forall|k: int| 0 <= k < p.rings@[0]@.len() ==> mcmp(d, pxy(lo.pt()), pxy(#[trigger] at(*p, 0, k))) != Ordering::Greater && mcmp(d, pxy(hi.pt()), pxy(at(*p, 0, k))) != Ordering::Less
    ensures set_up(d, *p, lo, hi, heights(d, ring_vs(*p)), x, y)
{
    let v = ring_vs(*p); let h = heights(d, v); let n = p.rings@[0].len();
    assert forall|k: int| 0 <= k < h.len() implies h[x] <= #[trigger] h[k] <= h[y] by { let _ = at(*p, 0, k); let _ = v[k]; }
}
pub proof fn walk<'a, T: PolygonScalar>(d: P2, p: Polygon<T>, lo: Cursor<'a, T>, hi: Cursor<'a, T>, h: Seq<real>, i: int, j: int)
    requires set_up(d, p, lo, hi, h, i, j)
    ensures
        forall|it: CursorIter<'a, T>| #![trigger it.seq()] !it.done() && it.head() == lo && it.tail() == hi.step(-1) ==> it.seq().len() == gap(i, j, h.len() as int) && (forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == lo.step(k)),
        forall|it: CursorIter<'a, T>| #![trigger it.seq()] !it.done() && it.head() == hi && it.tail() == lo.step(-1) ==> it.seq().len() == gap(j, i, h.len() as int) && (forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == hi.step(k)),
        lo.poly() == hi.poly(), lo.pos().ring_id == hi.pos().ring_id, climbs(h, i, 0), falls(h, j, 0),
{ }
proof fn at_step<'a, T: PolygonScalar>(d: P2, p: Polygon<T>, c: Cursor<'a, T>, i: int, k: int)
    requires wf(p), on_ring(c, p, i), 0 <= i < p.rings@[0]@.len(), 0 <= k < p.rings@[0]@.len()
    ensures heights(d, ring_vs(p)).len() == p.rings@[0]@.len(), ({ let h = heights(d, ring_vs(p)); let n = h.len() as int; let t = wrapi(i + k, n); dot2(d, pxy(c.step(k).pt())) == h[t] && dot2(d, pxy(c.step(k).step(1).pt())) == h[wrapi(t + 1, n)] })
{ let n = p.rings@[0].len(); }
pub open spec fn going<'a, T: PolygonScalar>(d: P2, c: Cursor<'a, T>) -> Ordering { rcmp(dot2(d, pxy(c.pt())), dot2(d, pxy(c.step(1).pt()))) }
pub proof fn up_here<'a, T: PolygonScalar>(d: P2, p: Polygon<T>, lo: Cursor<'a, T>, hi: Cursor<'a, T>, h: Seq<real>, i: int, j: int, k: int)
    requires set_up(d, p, lo, hi, h, i, j), 0 <= k < gap(i, j, h.len() as int), climbs(h, i, k)
    ensures going(d, lo.step(k)) == Ordering::Greater ==> !monotone(d, ring_vs(p)), going(d, lo.step(k)) != Ordering::Greater ==> climbs(h, i, k + 1)
{
    hide(dot2); hide(pxy); hide(wf); hide(split_at);
    at_step(d, p, lo, i, k);
    let t = wrapi(i + k, h.len() as int);
    if h[t] > h[wrapi(t + 1, h.len() as int)] { down_step(h, i, j, t); } else { assert(climb_at(h, i, k)); }
}
pub proof fn down_here<'a, T: PolygonScalar>(d: P2, p: Polygon<T>, lo: Cursor<'a, T>, hi: Cursor<'a, T>, h: Seq<real>, i: int, j: int, k: int)
    requires set_up(d, p, lo, hi, h, i, j), 0 <= k < gap(j, i, h.len() as int), falls(h, j, k)
    ensures going(d, hi.step(k)) == Ordering::Less ==> !monotone(d, ring_vs(p)), going(d, hi.step(k)) != Ordering::Less ==> falls(h, j, k + 1)
{
    hide(dot2); hide(pxy); hide(wf); hide(split_at);
    at_step(d, p, hi, j, k);
    let t = wrapi(j + k, h.len() as int);
    if h[t] < h[wrapi(t + 1, h.len() as int)] { up_step(h, i, j, t); } else { assert(fall_at(h, j, k)); }
}
pub proof fn done<'a, T: PolygonScalar>(d: P2, p: Polygon<T>, lo: Cursor<'a, T>, hi: Cursor<'a, T>, h: Seq<real>, i: int, j: int)
    requires set_up(d, p, lo, hi, h, i, j), climbs(h, i, gap(i, j, h.len() as int)), falls(h, j, gap(j, i, h.len() as int))
    ensures monotone(d, ring_vs(p))
{
    let n = h.len() as int;
    assert forall|t: int| #![trigger h[t]] 0 <= t < h.len() && (within(i, j, t) || i == j) implies h[t] <= h[wrapi(t + 1, n)] by { assert(climb_at(h, i, if t >= i { t - i } else { t - i + n })); }
    assert forall|t: int| #![trigger h[t]] 0 <= t < h.len() && (within(j, i, t) || i == j) implies h[t] >= h[wrapi(t + 1, n)] by { assert(fall_at(h, j, if t >= j { t - j } else { t - j + n })); }
    both_chains(h, i, j);
}
// ---- two chains make a simple ring
pub open spec fn mless(d: P2, a: P2, b: P2) -> bool { mcmp(d, a, b) == Ordering::Less }
// the points of an edge lie between its ends
proof fn mid(d: P2, a: P2, b: P2, q: P2)
    requires seg_has(hseg(a, b), q)
    ensures mless(d, a, b) ==> mcmp(d, a, q) != Ordering::Greater && mless(d, q, b), mless(d, b, a) ==> mcmp(d, q, a) != Ordering::Greater && mless(d, b, q)
{
    let t = choose|t: real| seg_at(hseg(a, b), q, t);
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    assert(q == lerp(a, b, t));
    if t == 1real { assert(1real * dx == dx && 1real * dy == dy) by(nonlinear_arith); assert(q == b); }
    if t == 0real { assert(0real * dx == 0real && 0real * dy == 0real) by(nonlinear_arith); assert(q == a); }
    let (ha, hb, hq) = (dot2(d, a), dot2(d, b), dot2(d, q));
    assert(hq - ha == t * (hb - ha)) by { dot2_diff(d, a, b); dot2_diff(d, a, q); rm3(t, d.0, dx); rm3(t, d.1, dy); rd(t, d.0 * dx, d.1 * dy);
        assert(psub(q, a) == (t * dx, t * dy)); assert(d.0 * (t * dx) == t * (d.0 * dx) && d.1 * (t * dy) == t * (d.1 * dy)) by(nonlinear_arith); }
    let w = hb - ha;
    assert((w > 0real ==> 0real <= t * w && (t < 1real ==> t * w < w) && (t > 0real ==> t * w > 0real)) && (w < 0real ==> t * w <= 0real && (t < 1real ==> t * w > w) && (t > 0real ==> t * w < 0real)) && (w == 0real ==> t * w == 0real)) by(nonlinear_arith) requires 0real <= t <= 1real;
    assert((dx > 0real ==> 0real <= t * dx && (t < 1real ==> t * dx < dx) && (t > 0real ==> t * dx > 0real)) && (dx < 0real ==> t * dx <= 0real && (t < 1real ==> t * dx > dx) && (t > 0real ==> t * dx < 0real)) && (dx == 0real ==> t * dx == 0real)) by(nonlinear_arith) requires 0real <= t <= 1real;
    assert((dy > 0real ==> 0real <= t * dy && (t < 1real ==> t * dy < dy) && (t > 0real ==> t * dy > 0real)) && (dy < 0real ==> t * dy <= 0real && (t < 1real ==> t * dy > dy) && (t > 0real ==> t * dy < 0real)) && (dy == 0real ==> t * dy == 0real)) by(nonlinear_arith) requires 0real <= t <= 1real;
}
// an edge on one side of a line touches the line only in an end
proof fn side(l: P2, r: P2, a: P2, b: P2, q: P2)
    requires seg_has(hseg(a, b), q)
    ensures
        cross3(l, r, a) <= 0real && cross3(l, r, b) <= 0real ==> cross3(l, r, q) <= 0real && (cross3(l, r, q) == 0real && (cross3(l, r, a) < 0real || cross3(l, r, b) < 0real) ==> q == a && cross3(l, r, a) == 0real),
        cross3(l, r, a) >= 0real && cross3(l, r, b) >= 0real ==> cross3(l, r, q) >= 0real && (cross3(l, r, q) == 0real && (cross3(l, r, a) > 0real || cross3(l, r, b) > 0real) ==> q == a && cross3(l, r, a) == 0real),
{
    let t = choose|t: real| seg_at(hseg(a, b), q, t);
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    cross_at(l, r, a, b, t);
    let (x, y) = (cross3(l, r, a), cross3(l, r, b));
    assert(q == lerp(a, b, t));
    if t == 1real { assert(1real * dx == dx && 1real * dy == dy) by(nonlinear_arith); assert(q == b); assert(false); }
    if t == 0real { assert(0real * dx == 0real && 0real * dy == 0real) by(nonlinear_arith); assert(q == a); }
    rd(t, y, x);
    assert(x + t * (y - x) == (1real - t) * x + t * y) by { rd(x, 1real, t); }
    rmul_sign(1real - t, x); rmul_sign(t, y); rneg(1real - t, x); rneg(t, y); rmul_sign(1real - t, -x); rmul_sign(t, -y);
}
// two chains between lo and hi: the right one (before k) rises, the left one falls.
// `right` says whether the straight line between lo and hi belongs to the left chain.
pub open spec fn two_chains(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool) -> bool {
    let n = v.len() as int;
    &&& 0 < k < n && n >= 3 && mless(d, lo, hi)
    &&& forall|i: int, j: int| 0 <= i < j < k ==> mless(d, #[trigger] v[i], #[trigger] v[j])
    &&& forall|i: int, j: int| k <= i < j < n ==> mless(d, #[trigger] v[j], #[trigger] v[i])
    &&& forall|i: int| 0 <= i < n ==> mcmp(d, lo, #[trigger] v[i]) != Ordering::Greater && mcmp(d, v[i], hi) != Ordering::Greater
    &&& if right { v[k] == hi && v[n - 1] == lo && (forall|i: int| 0 <= i < k ==> cross3(lo, hi, #[trigger] v[i]) < 0real) && (forall|i: int| k <= i < n ==> cross3(lo, hi, #[trigger] v[i]) >= 0real) }
        else { v[k - 1] == hi && v[0] == lo && (forall|i: int| 0 <= i < k ==> cross3(lo, hi, #[trigger] v[i]) == 0real) && (forall|i: int| k <= i < n ==> cross3(lo, hi, #[trigger] v[i]) > 0real) }
}
spec fn rises(v: Seq<P2>, k: int, right: bool, i: int) -> bool { if right { i < k || i == v.len() - 1 } else { i < k - 1 } }
proof fn edge_dir(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool, i: int)
    requires two_chains(d, v, lo, hi, k, right), 0 <= i < v.len()
    ensures if rises(v, k, right, i) { mless(d, v[i], v[wrapi(i + 1, v.len() as int)]) } else { mless(d, v[wrapi(i + 1, v.len() as int)], v[i]) }
{
    let n = v.len() as int; let j = wrapi(i + 1, n);
    let _ = v[i]; let _ = v[j];
    cross3_sym(lo, hi, lo); cross3_sym(lo, hi, hi);
    mcmp_laws(d, v[i], v[j], v[i]); mcmp_laws(d, lo, v[0], lo); mcmp_laws(d, v[k - 1], hi, hi); mcmp_laws(d, v[k], hi, hi);
    if right { assert(v[0] != lo); assert(v[k - 1] != hi); } else { assert(v[k] != hi); assert(v[n - 1] != lo); mcmp_laws(d, lo, v[n - 1], lo); }
}
proof fn apart_ij(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool, i: int, j: int, q: P2)
    requires two_chains(d, v, lo, hi, k, right), 0 <= j < i < v.len(), seg_has(vseg_at(v, i), q), seg_has(vseg_at(v, j), q)
    ensures false
{
    hide(seg_has); hide(mcmp); hide(cross3);
    let n = v.len() as int; let (i2, j2) = (wrapi(i + 1, n), wrapi(j + 1, n));
    edge_dir(d, v, lo, hi, k, right, i); edge_dir(d, v, lo, hi, k, right, j);
    mid(d, v[i], v[i2], q); mid(d, v[j], v[j2], q);
    cross3_sym(lo, hi, lo); cross3_sym(lo, hi, hi);
    let _ = (v[i], v[j], v[i2], v[j2]);
    let (ui, uj) = (rises(v, k, right, i), rises(v, k, right, j));
    if ui && uj {
        if i == n - 1 { let _ = (v[i2], v[j]); mcmp_laws(d, v[i2], v[j], q); mcmp_laws(d, q, v[i2], v[j]); mcmp_laws(d, v[j], q, v[i2]); mcmp_laws(d, v[j], v[i2], v[j]); }
        else { mcmp_laws(d, v[j2], v[i], q); mcmp_laws(d, q, v[j2], v[i]); mcmp_laws(d, v[i], q, v[j2]); mcmp_laws(d, v[j2], v[i], v[j2]); }
    } else if !ui && !uj {
        if i2 == 0 { mcmp_laws(d, lo, v[j2], lo); }
        mcmp_laws(d, v[j2], v[i], v[j2]); mcmp_laws(d, v[j2], q, v[i]); mcmp_laws(d, q, v[i], v[j2]);
    } else {
        side(lo, hi, v[i], v[i2], q); side(lo, hi, v[j], v[j2], q);
        let (a, a2, b, b2) = if ui { (v[i], v[i2], v[j], v[j2]) } else { (v[j], v[j2], v[i], v[i2]) };
        if right {
            assert(q == a && a == lo);
            mcmp_laws(d, lo, b2, lo); mcmp_laws(d, b2, q, b2);
        } else {
            assert(q == b && b == hi);
            mcmp_laws(d, q, a2, hi); mcmp_laws(d, a2, hi, a2);
        }
    }
}
pub proof fn chains_simple(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool)
    requires two_chains(d, v, lo, hi, k, right)
    ensures simple_ring(v)
{
    hide(seg_has); hide(mcmp); hide(cross3);
    assert forall|i: int, j: int| 0 <= j < i < v.len() implies #[trigger] v[j] != #[trigger] v[i] by { mcmp_laws(d, v[j], v[i], v[j]); if j < k && i >= k { assert(cross3(lo, hi, v[j]) != cross3(lo, hi, v[i])); } }
    assert forall|i: int, j: int| 0 <= j < i < v.len() implies !meets(#[trigger] vseg_at(v, i), #[trigger] vseg_at(v, j)) by {
        if meets(vseg_at(v, i), vseg_at(v, j)) { let q = choose|q: P2| seg_has(vseg_at(v, i), q) && seg_has(vseg_at(v, j), q); apart_ij(d, v, lo, hi, k, right, i, j, q); }
    }
}
proof fn edge_height(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool, i: int)
    requires two_chains(d, v, lo, hi, k, right), 0 <= i < v.len()
    ensures if rises(v, k, right, i) { dot2(d, v[i]) <= dot2(d, v[wrapi(i + 1, v.len() as int)]) } else { dot2(d, v[i]) >= dot2(d, v[wrapi(i + 1, v.len() as int)]) }
{ hide(cross3); edge_dir(d, v, lo, hi, k, right, i); }
spec fn rev_step(n: int, t: int) -> int { if t == n - 1 { n - 1 } else { n - 2 - t } }
proof fn peak(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool)
    requires two_chains(d, v, lo, hi, k, right)
    ensures if right { k < v.len() - 1 } else { k >= 2 }, 0 < k < v.len(), v.len() >= 3
{ hide(mcmp); hide(cross3); mcmp_laws(d, lo, hi, lo); assert(lo != hi); }
pub proof fn chains_monotone(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool)
    requires two_chains(d, v, lo, hi, k, right)
    ensures monotone(d, v)
{
    hide(two_chains); hide(dot2);
    let n = v.len() as int; let h = heights(d, v);
    let (a, b) = if right { (n - 1, k) } else { (0int, k - 1) };
    peak(d, v, lo, hi, k, right);
    assert forall|t: int| #![trigger h[t]] 0 <= t < n implies (if within(a, b, t) { h[t] <= h[wrapi(t + 1, n)] } else { h[t] >= h[wrapi(t + 1, n)] }) by { edge_height(d, v, lo, hi, k, right, t); }
    assert(split_at(h, a, b));
}
pub proof fn chains_back(d: P2, v: Seq<P2>, lo: P2, hi: P2, k: int, right: bool)
    requires two_chains(d, v, lo, hi, k, right)
    ensures monotone(d, newp::rv(v))
{
    hide(two_chains); hide(dot2);
    let n = v.len() as int; let w = newp::rv(v); let g = heights(d, w);
    let (c, e) = if right { (0, n - 1 - k) } else { (n - 1, n - k) };
    peak(d, v, lo, hi, k, right);
    assert forall|t: int| #![trigger g[t]] 0 <= t < n implies (if within(c, e, t) { g[t] <= g[wrapi(t + 1, n)] } else { g[t] >= g[wrapi(t + 1, n)] }) by {
        let s = rev_step(n, t);
        edge_height(d, v, lo, hi, k, right, s);
        assert(n - 1 - t == wrapi(s + 1, n) && n - 1 - wrapi(t + 1, n) == s);
        assert(within(c, e, t) == !rises(v, k, right, s));
    }
    assert(split_at(g, c, e));
}
} }
verus! {
use std::ops::{Bound::*, Deref};
impl<'a, T> Deref for Cursor<'a, T> {
    type Target = Point<T>;
//@ fn src/data/polygon.rs | Deref for Cursor<'_, T> | deref
//@ ret r
//@ spec
    ensures *r == self.pt()
//@ end
}
impl<'a, T: TotalOrd> TotalOrd for Cursor<'a, T> {
    open spec fn tcmp(&self, other: &Self) -> Ordering { (&self.pt()).tcmp(&other.pt()) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) { Point::<T, 2>::tcmp_laws(&a.pt(), &b.pt(), &c.pt()); }
//@ fn src/data/polygon.rs | TotalOrd for Cursor<'_, T> | total_cmp
//@ end
}
//@ fn src/algorithms/polygonization/monotone.rs | - | is_monotone
//@ ret r
//@ spec
    requires wf(*poly), poly.rings@.len() == 1
    ensures r == monotone(vxy(*direction), ring_vs(*poly))
//@ closure 0
    -> (o: Ordering) ensures o == mcmp(vxy(*direction), pxy(a.pt()), pxy(b.pt()))
//@ closure 1
    -> (o: Ordering) ensures o == plex(pxy(a.pt()), pxy(b.pt()))
//@ top
    hide(mcmp); hide(plex); hide(dot2); hide(vxy); hide(pxy); hide(monotone); hide(mono::set_up); hide(mono::climbs); hide(mono::falls); hide(ring_vs); hide(heights); hide(Cursor::step); hide(wf);
    let ghost d = vxy(*direction); let ghost h = heights(d, ring_vs(*poly));
    proof { ringp::point_order::<T>(); mono::mcmp_all(d); reveal(wf); }
//@ after_stmt let min_cursor
    let ghost i = min_cursor.pos().position_id.0 as int; let ghost j = max_cursor.pos().position_id.0 as int;
    proof { mono::start(d, poly, min_cursor, max_cursor, i, j); mono::walk(d, *poly, min_cursor, max_cursor, h, i, j); }
//@ loop 0 iter it
    invariant
        mono::set_up(d, *poly, min_cursor, max_cursor, h, i, j), d == vxy(*direction), it.seq().len() == mono::gap(i, j, h.len() as int),
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == min_cursor.step(k),
        mono::climbs(h, i, it.index@ as int)
//@ loop_top 0
    proof { mono::up_here(d, *poly, min_cursor, max_cursor, h, i, j, it.index@ as int); }
//@ loop 1 iter it
    invariant
        mono::set_up(d, *poly, min_cursor, max_cursor, h, i, j), d == vxy(*direction), it.seq().len() == mono::gap(j, i, h.len() as int),
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == max_cursor.step(k),
        mono::climbs(h, i, mono::gap(i, j, h.len() as int)), mono::falls(h, j, it.index@ as int)
//@ loop_top 1
    proof { mono::down_here(d, *poly, min_cursor, max_cursor, h, i, j, it.index@ as int); }
//@ tail res
    proof { mono::done(d, *poly, min_cursor, max_cursor, h, i, j); }
//@ end
} // verus!

verus! {
impl<T: PolygonScalar> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | is_monotone
//@ ret r
//@ spec
    requires wf(*self), self.rings@.len() == 1
    ensures r == monotone(vxy(*direction), ring_vs(*self))
//@ rewrite? crate::algorithms::polygonization::monotone::is_monotone =>> is_monotone
//@ end
}
} // verus!
