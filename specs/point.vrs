// Points: lexicographic order, equality, and the predicates that delegate to Orientation.
verus! {
// lexicographic comparison of two coordinate sequences from position k on
pub open spec fn lexcmp<T: TotalOrd>(a: Seq<T>, b: Seq<T>, k: int) -> Ordering
    decreases a.len() - k
{
    if k >= a.len() || k >= b.len() { Ordering::Equal }
    else if (&a[k]).tcmp(&b[k]) != Ordering::Equal { (&a[k]).tcmp(&b[k]) }
    else { lexcmp(a, b, k + 1) }
}
pub proof fn lexcmp_laws<T: TotalOrd>(a: Seq<T>, b: Seq<T>, c: Seq<T>, k: int)
    requires a.len() == b.len() == c.len(), 0 <= k <= a.len()
    ensures
        lexcmp(a, a, k) == Ordering::Equal,
        lexcmp(b, a, k) == orev(lexcmp(a, b, k)),
        lexcmp(a, b, k) != Ordering::Greater && lexcmp(b, c, k) != Ordering::Greater ==> lexcmp(a, c, k) != Ordering::Greater,
        lexcmp(a, b, k) == Ordering::Less && lexcmp(b, c, k) != Ordering::Greater ==> lexcmp(a, c, k) == Ordering::Less,
        lexcmp(a, b, k) != Ordering::Greater && lexcmp(b, c, k) == Ordering::Less ==> lexcmp(a, c, k) == Ordering::Less,
    decreases a.len() - k
{
    if k < a.len() {
        T::tcmp_laws(&a[k], &b[k], &c[k]); T::tcmp_laws(&b[k], &c[k], &a[k]); T::tcmp_laws(&c[k], &a[k], &b[k]);
        T::tcmp_laws(&a[k], &a[k], &a[k]); T::tcmp_laws(&b[k], &a[k], &c[k]); T::tcmp_laws(&a[k], &c[k], &b[k]); T::tcmp_laws(&c[k], &b[k], &a[k]);
        lexcmp_laws(a, b, c, k + 1);
    }
}
// equality in the order is equality of every coordinate
pub proof fn lexcmp_equal<T: TotalOrd>(a: Seq<T>, b: Seq<T>, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len()
    ensures (lexcmp(a, b, k) == Ordering::Equal) == (forall|i: int| #![trigger a[i]] k <= i < a.len() ==> (&a[i]).tcmp(&b[i]) == Ordering::Equal)
    decreases a.len() - k
{
    if k < a.len() { lexcmp_equal(a, b, k + 1); }
}
// of two points in the plane: x first, then y, on the exact values
pub proof fn point_order_2d<T: PolygonScalar>(a: Point<T, 2>, b: Point<T, 2>)
    ensures (&a).tcmp(&b) == (if pxy(a).0 != pxy(b).0 { rcmp(pxy(a).0, pxy(b).0) } else { rcmp(pxy(a).1, pxy(b).1) })
{
    T::scalar_laws(a.array[0], b.array[0]);
    T::scalar_laws(a.array[1], b.array[1]);
    reveal_with_fuel(lexcmp, 4);
}

//@ item src/data/line.rs | Direction

impl<T: TotalOrd, const N: usize> TotalOrd for Point<T, N> {
    open spec fn tcmp(&self, other: &Self) -> Ordering { lexcmp(self.array@, other.array@, 0) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) { lexcmp_laws(a.array@, b.array@, c.array@, 0); }
//@ fn src/data/point.rs | TotalOrd for Point<T, N> | total_cmp | probe=no
//@ ret o
//@ rewrite? Ordering::Equal => continue, =>> Ordering::Equal => {}
//@ loop 0 iter it
    invariant lexcmp(self.array@, other.array@, 0) == lexcmp(self.array@, other.array@, it.index@ as int)
//@ end
}
impl<T: TotalOrd, const N: usize> PartialEqSpecImpl for Point<T, N> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.tcmp(other) == Ordering::Equal }
}
impl<T: TotalOrd, const N: usize> PartialEq for Point<T, N> {
//@ fn src/data/point.rs | PartialEq for Point<T, N> | eq | probe=no
//@ end
}
impl<T: TotalOrd, const N: usize> Eq for Point<T, N> {}
impl<T: TotalOrd, const N: usize> PartialOrdSpecImpl for Point<T, N> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(self.tcmp(other)) }
}
impl<T: TotalOrd, const N: usize> PartialOrd for Point<T, N> {
//@ fn src/data/point.rs | PartialOrd for Point<T, N> | partial_cmp | probe=no
//@ end
}
impl<T: TotalOrd, const N: usize> OrdSpecImpl for Point<T, N> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { self.tcmp(other) }
}
impl<T: TotalOrd, const N: usize> Ord for Point<T, N> {
//@ fn src/data/point.rs | Ord for Point<T, N> | cmp | probe=no
//@ end
}
//@ item src/data/point.rs | PointSoS | fields=pub
impl TotalOrd for u32 {
    open spec fn tcmp(&self, other: &Self) -> Ordering { icmp(*self as int, *other as int) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) { }
//@ fn src/lib.rs | TotalOrd for u32 | total_cmp | probe=no
//@ end
}
impl<A: TotalOrd> TotalOrd for &A {
    open spec fn tcmp(&self, other: &Self) -> Ordering { (**self).tcmp(&**other) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) { A::tcmp_laws(*a, *b, *c); }
//@ fn src/lib.rs | TotalOrd for &A | total_cmp | probe=no
//@ end
}
impl<A: TotalOrd, B: TotalOrd> TotalOrd for (A, B) {
    open spec fn tcmp(&self, other: &Self) -> Ordering { if (&self.0).tcmp(&other.0) == Ordering::Equal { (&self.1).tcmp(&other.1) } else { (&self.0).tcmp(&other.0) } }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) {
        A::tcmp_laws(&a.0, &b.0, &c.0); A::tcmp_laws(&b.0, &c.0, &a.0); A::tcmp_laws(&c.0, &a.0, &b.0); A::tcmp_laws(&b.0, &a.0, &c.0); A::tcmp_laws(&a.0, &c.0, &b.0); A::tcmp_laws(&c.0, &b.0, &a.0);
        B::tcmp_laws(&a.1, &b.1, &c.1);
    }
//@ fn src/lib.rs | TotalOrd for (A, B) | total_cmp | probe=no
//@ closure 0
    -> (o: Ordering) ensures o == (&self.1).tcmp(&other.1)
//@ end
}
impl<'a, T: TotalOrd, const N: usize> TotalOrd for PointSoS<'a, T, N> {
    open spec fn tcmp(&self, other: &Self) -> Ordering { if self.index != other.index { icmp(self.index as int, other.index as int) } else { self.point.tcmp(other.point) } }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) { Point::<T, N>::tcmp_laws(a.point, b.point, c.point); }
//@ fn src/data/point.rs | TotalOrd for PointSoS<'_, T, N> | total_cmp | probe=no
//@ end
}
impl<'a, T: TotalOrd, const N: usize> PartialEqSpecImpl for PointSoS<'a, T, N> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.tcmp(other) == Ordering::Equal }
}
impl<'a, T: TotalOrd, const N: usize> PartialEq for PointSoS<'a, T, N> {
//@ fn src/data/point.rs | PartialEq for PointSoS<'_, T, N> | eq | probe=no
//@ end
}
impl<'a, T: TotalOrd, const N: usize> Eq for PointSoS<'a, T, N> {}
impl<'a, T: TotalOrd, const N: usize> PartialOrdSpecImpl for PointSoS<'a, T, N> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(self.tcmp(other)) }
}
impl<'a, T: TotalOrd, const N: usize> PartialOrd for PointSoS<'a, T, N> {
//@ fn src/data/point.rs | PartialOrd for PointSoS<'_, T, N> | partial_cmp | probe=no
//@ end
}
impl<'a, T: TotalOrd, const N: usize> OrdSpecImpl for PointSoS<'a, T, N> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { self.tcmp(other) }
}
impl<'a, T: TotalOrd, const N: usize> Ord for PointSoS<'a, T, N> {
//@ fn src/data/point.rs | Ord for PointSoS<'_, T, N> | cmp | probe=no
//@ end
}
impl<T, const N: usize> Point<T, N> {
//@ fn src/data/point.rs | impl Point<T, N> | new
//@ ret r
//@ spec
    ensures r.array == array
//@ end
}
impl<T> Point<T, 2> {
//@ fn src/data/point.rs | impl Point<T, 2> | x_coord
//@ ret r
//@ spec
    ensures *r == self.array[0]
//@ end
//@ fn src/data/point.rs | impl Point<T, 2> | y_coord
//@ ret r
//@ spec
    ensures *r == self.array[1]
//@ end
}
impl<T: PolygonScalar> Point<T> {
//@ fn src/data/point.rs | impl Point<T> | cmp_distance_to
//@ ret o
//@ spec
    ensures o == rcmp(xdist2(pxy(*self).0, pxy(*self).1, pxy(*p).0, pxy(*p).1), xdist2(pxy(*self).0, pxy(*self).1, pxy(*q).0, pxy(*q).1))
//@ end
//@ fn src/data/point.rs | impl Point<T> | orient
//@ ret o
//@ spec
    ensures o == orient3(pxy(*p1), pxy(*p2), pxy(*p3))
//@ end
//@ fn src/data/point.rs | impl Point<T> | orient_along_vector
//@ ret o
//@ spec
    ensures o == orient_of(cross2(vxy(*vector), psub(pxy(*p2), pxy(*p1))))
//@ end
//@ fn src/data/point.rs | impl Point<T> | orient_along_perp_vector
//@ ret o
//@ spec
    ensures o == orient_of(cross2((-vxy(*vector).1, vxy(*vector).0), psub(pxy(*p2), pxy(*p1)))),
//@ end
//@ fn src/data/point.rs | impl Point<T> | orient_along_direction
//@ ret o
//@ spec
    ensures o == match direction {
        Direction::Vector(v) => orient_of(cross2(vxy(*v), psub(pxy(*p2), pxy(*p1)))),
        Direction::Through(p) => orient3(pxy(*p1), pxy(*p), pxy(*p2)),
    }
//@ end
//@ fn src/data/point.rs | impl Point<T> | ccw_cmp_around
//@ ret o
//@ spec
    ensures o == acmp((1real, 0real), psub(pxy(*p), pxy(*self)), psub(pxy(*q), pxy(*self)))
//@ end
//@ fn src/data/point.rs | impl Point<T> | ccw_cmp_around_with
//@ ret o
//@ spec
    ensures o == acmp(vxy(*z), psub(pxy(*p), pxy(*self)), psub(pxy(*q), pxy(*self)))
//@ end
//@ fn src/data/point.rs | impl Point<T> | all_colinear
//@ ret b
//@ spec
    ensures b == on_one_line(pts@)
//@ closure 0
    -> (c: bool) requires pts.len() > 0 ensures c == (pxy(**pt) != pxy(pts@[0]))
//@ closure 1
    -> (c: bool) requires pts.len() > 0 ensures c == (orient3(pxy(pts@[0]), pxy(*other), pxy(*pt)) == Orientation::CoLinear)
//@ top
    broadcast use colinear::point_eq;
    proof {
        colinear::line_through(pts@);
    }
//@ end
}
// all points of the list lie on one line
pub open spec fn on_one_line<T: PolygonScalar>(s: Seq<Point<T, 2>>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
        ==> cross3(pxy(#[trigger] s[i]), pxy(#[trigger] s[j]), pxy(#[trigger] s[k])) == 0real
}
} // verus!
pub mod colinear { use super::*; verus! {
pub broadcast proof fn point_eq<T: PolygonScalar>(a: Point<T, 2>, b: Point<T, 2>)
    ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (pxy(a) == pxy(b))
{ point_order_2d(a, b); }
// two directions parallel to a third, non-zero one are parallel
pub proof fn parallel(u: P2, a: P2, b: P2)
    requires u != (0real, 0real), cross2(u, a) == 0real, cross2(u, b) == 0real
    ensures cross2(a, b) == 0real
{
    let c = (-u.1, u.0);
    plucker(u, a, b, c);
    rneg(u.1, u.1);
    assert(cross2(u, c) == u.0 * u.0 + u.1 * u.1);
    rmul_sign(u.0, u.0); rmul_sign(u.1, u.1);
    assert(cross2(u, c) > 0real);
    assert(cross2(a, b) * cross2(u, c) == 0real) by { rmul_sign(cross2(u, b), cross2(a, c)); rmul_sign(cross2(u, a), cross2(b, c)); }
    rmul_sign(cross2(a, b), cross2(u, c));
}
pub proof fn cross2_sub(u: P2, a: P2, b: P2) ensures cross2(u, psub(a, b)) == cross2(u, a) - cross2(u, b)
{ rd(u.0, a.1, b.1); rd(u.1, a.0, b.0); }
// a line through two distinct listed points that contains every listed point contains every triple
pub proof fn line_through<T: PolygonScalar>(s: Seq<Point<T, 2>>)
    ensures
        forall|j: int| 0 <= j < s.len() && pxy(#[trigger] s[j]) != pxy(s[0]) ==>
            (on_one_line(s) == forall|k: int| 0 <= k < s.len() ==> cross3(pxy(s[0]), pxy(s[j]), pxy(#[trigger] s[k])) == 0real),
        (forall|j: int| 0 <= j < s.len() ==> pxy(#[trigger] s[j]) == pxy(s[0])) ==> on_one_line(s),
{
    assert forall|j: int| 0 <= j < s.len() && pxy(#[trigger] s[j]) != pxy(s[0])
        && (forall|k: int| 0 <= k < s.len() ==> cross3(pxy(s[0]), pxy(s[j]), pxy(#[trigger] s[k])) == 0real) implies on_one_line(s) by {
        let o = pxy(s[0]); let u = psub(pxy(s[j]), o);
        assert forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len()
            implies cross3(pxy(#[trigger] s[a]), pxy(#[trigger] s[b]), pxy(#[trigger] s[c])) == 0real by {
            let (da, db, dc) = (psub(pxy(s[a]), o), psub(pxy(s[b]), o), psub(pxy(s[c]), o));
            assert(cross3(o, pxy(s[j]), pxy(s[a])) == 0real && cross3(o, pxy(s[j]), pxy(s[b])) == 0real && cross3(o, pxy(s[j]), pxy(s[c])) == 0real);
            cross2_sub(u, db, da); cross2_sub(u, dc, da);
            parallel(u, psub(db, da), psub(dc, da));
            assert(psub(db, da) == psub(pxy(s[b]), pxy(s[a])));
            assert(psub(dc, da) == psub(pxy(s[c]), pxy(s[a])));
        }
    }
    if forall|j: int| 0 <= j < s.len() ==> pxy(#[trigger] s[j]) == pxy(s[0]) {
        assert forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len()
            implies cross3(pxy(#[trigger] s[a]), pxy(#[trigger] s[b]), pxy(#[trigger] s[c])) == 0real by {
            assert(pxy(s[a]) == pxy(s[0]) && pxy(s[b]) == pxy(s[0]) && pxy(s[c]) == pxy(s[0]));
            cross3_sym(pxy(s[0]), pxy(s[0]), pxy(s[0]));
        }
    }
}
} }
