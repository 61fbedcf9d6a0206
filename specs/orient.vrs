// Orientation and SoS, the point/vector types they work on, and the angular order.
verus! {
pub type P2 = (real, real);
pub open spec fn xy<T: PolygonScalar>(p: [T; 2]) -> P2 { (p[0].v(), p[1].v()) }
pub open spec fn psub(a: P2, b: P2) -> P2 { (a.0 - b.0, a.1 - b.1) }
pub open spec fn cross2(a: P2, b: P2) -> real { xcross(a.0, a.1, b.0, b.1) }
pub open spec fn dot2(a: P2, b: P2) -> real { xdot(a.0, a.1, b.0, b.1) }
// twice the signed area of the triangle a b c
pub open spec fn cross3(a: P2, b: P2, c: P2) -> real { xcross(b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1) }
pub open spec fn orient_of(x: real) -> Orientation {
    if x < 0real { Orientation::ClockWise } else if x > 0real { Orientation::CounterClockWise } else { Orientation::CoLinear }
}
pub open spec fn orient3(a: P2, b: P2, c: P2) -> Orientation { orient_of(cross3(a, b, c)) }

//@ item src/orientation.rs | Orientation | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/orientation.rs | SoS | attr=#[derive(Copy, Clone)]
use Orientation::*;
//@ item src/data/vector.rs | Vector | fields=pub
//@ item src/data/point.rs | Point | fields=pub

pub open spec fn vxy<T: PolygonScalar>(p: Vector<T, 2>) -> P2 { xy(p.0) }
pub open spec fn pxy<T: PolygonScalar>(p: Point<T, 2>) -> P2 { xy(p.array) }

impl<T, const N: usize> std::ops::Deref for Point<T, N> {
    type Target = [T; N];
//@ fn src/data/point.rs | Deref for Point<T, N> | deref | probe=no
//@ ret r
//@ spec
    ensures *r == self.array
//@ end
}

// index of the half-plane (relative to direction z) in which the direction d lies:
// 0: angle 0, 1: angle in (0,180), 2: angle 180, 3: angle in (180,360)
pub open spec fn aclass(z: P2, d: P2) -> int {
    if cross2(z, d) > 0real { 1 } else if cross2(z, d) < 0real { 3 } else if dot2(z, d) >= 0real { 0 } else { 2 }
}
// counter-clockwise angular order of directions a, b starting from direction z
pub open spec fn acmp(z: P2, a: P2, b: P2) -> Ordering {
    if aclass(z, a) != aclass(z, b) { icmp(aclass(z, a), aclass(z, b)) }
    else if aclass(z, a) == 1 || aclass(z, a) == 3 { rcmp(0real, cross2(a, b)) }
    else { Ordering::Equal }
}
pub proof fn plucker(z: P2, a: P2, b: P2, c: P2)
    ensures cross2(z, b) * cross2(a, c) == cross2(z, a) * cross2(b, c) + cross2(a, b) * cross2(z, c)
{
    rdd(z.0 * b.1, z.1 * b.0, a.0 * c.1, a.1 * c.0);
    rdd(z.0 * a.1, z.1 * a.0, b.0 * c.1, b.1 * c.0);
    rdd(a.0 * b.1, a.1 * b.0, z.0 * c.1, z.1 * c.0);
    rm4(z.0, b.1, a.0, c.1); rm4(z.0, b.1, a.1, c.0); rm4(z.1, b.0, a.0, c.1); rm4(z.1, b.0, a.1, c.0);
    rm4(z.0, a.1, b.0, c.1); rm4(z.0, a.1, b.1, c.0); rm4(z.1, a.0, b.0, c.1); rm4(z.1, a.0, b.1, c.0);
    rm4(a.0, b.1, z.0, c.1); rm4(a.0, b.1, z.1, c.0); rm4(a.1, b.0, z.0, c.1); rm4(a.1, b.0, z.1, c.0);
    rmc(z.0, b.1); rmc(z.0, a.1); rmc(z.0, a.0); rmc(z.1, b.0); rmc(z.1, a.0); rmc(z.1, a.1); rmc(z.1, b.1); rmc(z.0, b.0);
    rmc(a.0, b.1); rmc(a.1, b.0); rmc(a.0, b.0); rmc(a.1, b.1);
}
pub proof fn rmul_sign(a: real, b: real)
    ensures
        a > 0real && b > 0real ==> a * b > 0real, a < 0real && b < 0real ==> a * b > 0real,
        a < 0real && b > 0real ==> a * b < 0real, a > 0real && b < 0real ==> a * b < 0real,
        a == 0real || b == 0real ==> a * b == 0real, a >= 0real && b >= 0real ==> a * b >= 0real,
{
    assert((a > 0real && b > 0real ==> a * b > 0real) && (a < 0real && b < 0real ==> a * b > 0real)
        && (a < 0real && b > 0real ==> a * b < 0real) && (a > 0real && b < 0real ==> a * b < 0real)
        && (a == 0real || b == 0real ==> a * b == 0real)) by(nonlinear_arith);
}
pub proof fn cross2_anti(a: P2, b: P2) ensures cross2(b, a) == -cross2(a, b), cross2(a, a) == 0real
{ rmc(a.0, b.1); rmc(a.1, b.0); rmc(a.0, a.1); }
// C05: the angular comparison is a total preorder
pub proof fn acmp_total_preorder(z: P2, a: P2, b: P2, c: P2)
    ensures
        acmp(z, a, a) == Ordering::Equal,
        acmp(z, b, a) == orev(acmp(z, a, b)),
        acmp(z, a, b) != Ordering::Greater && acmp(z, b, c) != Ordering::Greater ==> acmp(z, a, c) != Ordering::Greater,
        acmp(z, a, b) == Ordering::Less && acmp(z, b, c) != Ordering::Greater ==> acmp(z, a, c) == Ordering::Less,
        acmp(z, a, b) != Ordering::Greater && acmp(z, b, c) == Ordering::Less ==> acmp(z, a, c) == Ordering::Less,
{
    plucker(z, a, b, c); cross2_anti(a, b); cross2_anti(a, a); 
    assert(cross2(a, a) == 0real);
    rmul_sign(cross2(z, b), cross2(a, c)); rmul_sign(cross2(z, a), cross2(b, c)); rmul_sign(cross2(a, b), cross2(z, c));
}

// orientation is invariant under rotation of its arguments and flips under a swap
pub proof fn cross3_sym(a: P2, b: P2, c: P2)
    ensures cross3(b, c, a) == cross3(a, b, c), cross3(c, a, b) == cross3(a, b, c),
        cross3(b, a, c) == -cross3(a, b, c), cross3(a, c, b) == -cross3(a, b, c), cross3(c, b, a) == -cross3(a, b, c),
        cross3(a, a, c) == 0real, cross3(a, b, b) == 0real, cross3(a, b, a) == 0real,
{
    cross3_expand(a, b, c); cross3_expand(b, c, a); cross3_expand(c, a, b); cross3_expand(b, a, c); cross3_expand(a, c, b); cross3_expand(c, b, a);
    cross3_expand(a, a, c); cross3_expand(a, b, b); cross3_expand(a, b, a);
    cross2_anti(a, b); cross2_anti(b, c); cross2_anti(a, c); cross2_anti(a, a); cross2_anti(b, b);
}
pub proof fn cross3_expand(a: P2, b: P2, c: P2) ensures cross3(a, b, c) == cross2(a, b) + cross2(b, c) + cross2(c, a)
{ rdd(b.0, a.0, c.1, a.1); rdd(b.1, a.1, c.0, a.0); }

pub open spec fn sos_ccw(a: u32, b: u32, c: u32) -> bool { (a < b && b < c) || (b < c && c < a) || (c < a && a < b) }
pub open spec fn sos_of(ccw: bool) -> SoS { if ccw { SoS::CounterClockWise } else { SoS::ClockWise } }
// the tie-break is the orientation of three points of a strictly convex curve
pub proof fn sos_is_convex_curve(a: u32, b: u32, c: u32)
    requires a != b, b != c, a != c
    ensures
        sos_ccw(a, b, c) == ((b - a) * (c * c - a * a) - (b * b - a * a) * (c - a) > 0),
        sos_ccw(b, c, a) == sos_ccw(a, b, c), sos_ccw(c, a, b) == sos_ccw(a, b, c),
        sos_ccw(b, a, c) == !sos_ccw(a, b, c), sos_ccw(a, c, b) == !sos_ccw(a, b, c), sos_ccw(c, b, a) == !sos_ccw(a, b, c),
{
    let x = a as int; let y = b as int; let z = c as int;
    let p = y - x; let q = z - x; let s = z + x; let t = y + x;
    assert(z * z - x * x == q * s) by(nonlinear_arith) requires q == z - x, s == z + x;
    assert(y * y - x * x == p * t) by(nonlinear_arith) requires p == y - x, t == y + x;
    assert(p * (q * s) == (p * q) * s) by(nonlinear_arith);
    assert((p * t) * q == (p * q) * t) by(nonlinear_arith);
    let w = p * q;
    assert(w * s - w * t == w * (s - t)) by(nonlinear_arith);
    assert(s - t == z - y);
    lemma_mul_sign(p, q);
    lemma_mul_sign(w, z - y);
}

impl Orientation {
//@ fn src/orientation.rs | impl Orientation | new
//@ ret o
//@ spec
    ensures o == orient3(xy(*p1), xy(*p2), xy(*p3))
//@ end
//@ fn src/orientation.rs | impl Orientation | along_vector
//@ ret o
//@ spec
    ensures o == orient_of(cross2(vxy(*vector), psub(xy(*p2), xy(*p1))))
//@ end
//@ fn src/orientation.rs | impl Orientation | along_perp_vector
//@ ret o
//@ spec
    ensures o == orient_of(cross2((-vxy(*vector).1, vxy(*vector).0), psub(xy(*p2), xy(*p1)))),
//@ end
//@ fn src/orientation.rs | impl Orientation | is_colinear
//@ ret b
//@ spec
    ensures b == (self == Orientation::CoLinear)
//@ end
//@ fn src/orientation.rs | impl Orientation | is_ccw
//@ ret b
//@ spec
    ensures b == (self == Orientation::CounterClockWise)
//@ end
//@ fn src/orientation.rs | impl Orientation | is_cw
//@ ret b
//@ spec
    ensures b == (self == Orientation::ClockWise)
//@ end
//@ fn src/orientation.rs | impl Orientation | then
//@ ret o
//@ spec
    ensures o == if self == Orientation::CoLinear { other } else { self }
//@ end
//@ fn src/orientation.rs | impl Orientation | break_ties
//@ ret o
//@ spec
    requires a != b, b != c, c != a,
    ensures o == match self { Orientation::CounterClockWise => SoS::CounterClockWise, Orientation::ClockWise => SoS::ClockWise, Orientation::CoLinear => sos_of(sos_ccw(a, b, c)) }
//@ end
//@ fn src/orientation.rs | impl Orientation | sos
//@ ret o
//@ spec
    ensures o == match self { Orientation::CounterClockWise => SoS::CounterClockWise, Orientation::ClockWise => SoS::ClockWise, Orientation::CoLinear => other }
//@ end
//@ fn src/orientation.rs | impl Orientation | reverse
//@ ret o
//@ spec
    ensures o == match self { Orientation::CounterClockWise => Orientation::ClockWise, Orientation::ClockWise => Orientation::CounterClockWise, Orientation::CoLinear => Orientation::CoLinear }
//@ end
//@ fn src/orientation.rs | impl Orientation | ccw_cmp_around_with
//@ ret o
//@ spec
    ensures o == acmp(vxy(*vector), psub(xy(*p2), xy(*p1)), psub(xy(*p3), xy(*p1)))
//@ closure 0
    -> (b: bool) ensures b == (cross2((-vxy(*vector).1, vxy(*vector).0), psub(xy(*d), xy(*p1))) <= 0real)
//@ closure 1
    -> (b: Ordering) ensures b == rcmp(0real, cross3(xy(*p1), xy(*p2), xy(*p3)))
//@ top
    proof {
        let z = vxy(*vector); let a = psub(xy(*p2), xy(*p1)); let b = psub(xy(*p3), xy(*p1));
        perp_is_dot(z, a); perp_is_dot(z, b);
    }
//@ end
}
pub proof fn perp_is_dot(z: P2, d: P2) ensures cross2((-z.1, z.0), d) == -dot2(z, d)
{ rneg(z.1, d.1); }
impl SoS {
//@ fn src/orientation.rs | impl SoS | new
//@ ret o
//@ spec
    requires a != b, b != c, c != a,
    ensures o == sos_of(sos_ccw(a, b, c))
//@ rewrite? assert_ne!(a, b); =>> assert(a != b);
//@ rewrite? assert_ne!(b, c); =>> assert(b != c);
//@ rewrite? assert_ne!(c, a); =>> assert(c != a);
//@ end
//@ fn src/orientation.rs | impl SoS | orient
//@ ret o
//@ spec
    ensures o == match self { SoS::CounterClockWise => Orientation::CounterClockWise, SoS::ClockWise => Orientation::ClockWise }
//@ end
//@ fn src/orientation.rs | impl SoS | reverse
//@ ret o
//@ spec
    ensures o == match self { SoS::CounterClockWise => SoS::ClockWise, SoS::ClockWise => SoS::CounterClockWise }
//@ end
}
// C04: the algebra of orientations, as consequences of the contracts above
pub proof fn orient_laws(a: P2, b: P2, c: P2)
    ensures
        orient3(b, c, a) == orient3(a, b, c),
        orient3(b, a, c) == orient3(a, b, c) <==> orient3(a, b, c) == Orientation::CoLinear,
        orient3(a, b, c) == Orientation::CounterClockWise <==> orient3(b, a, c) == Orientation::ClockWise,
{ cross3_sym(a, b, c); }
} // verus!
