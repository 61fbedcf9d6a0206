// Vectors: order along a direction, angular order around the origin.
verus! {
impl<T> Vector<T, 2> {
//@ fn src/data/vector.rs | impl Vector<T, 2> | unit_right
//@ ret r
//@ spec
    ensures vxy(r) == (1real, 0real)
//@ end
//@ fn src/data/vector.rs | impl Vector<T, 2> | ccw_cmp_around
//@ ret o
//@ spec
    ensures o == acmp((1real, 0real), psub(vxy(*p), vxy(*self)), psub(vxy(*q), vxy(*self)))
//@ end
//@ fn src/data/vector.rs | impl Vector<T, 2> | ccw_cmp_around_with
//@ ret o
//@ spec
    ensures o == acmp(vxy(*z), psub(vxy(*p), vxy(*self)), psub(vxy(*q), vxy(*self)))
//@ end
//@ fn src/data/vector.rs | impl Vector<T, 2> | sort_around
//@ spec
    ensures
        final(pts)@.to_multiset() == old(pts)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(pts)@.len() ==> acmp((1real, 0real), vxy(#[trigger] final(pts)@[i]), vxy(#[trigger] final(pts)@[j])) != Ordering::Greater,
//@ closure 0
    -> (o: Ordering) ensures o == acmp((1real, 0real), vxy(*a), vxy(*b))
//@ top
    proof {
        assert forall|a: P2, b: P2, c: P2| #![trigger acmp((1real, 0real), a, b), acmp((1real, 0real), b, c)]
            acmp((1real, 0real), a, b) != Ordering::Greater && acmp((1real, 0real), b, c) != Ordering::Greater ==> acmp((1real, 0real), a, c) != Ordering::Greater by { acmp_total_preorder((1real, 0real), a, b, c); }
        assert forall|a: P2, b: P2| acmp((1real, 0real), b, a) == orev(#[trigger] acmp((1real, 0real), a, b)) by { acmp_total_preorder((1real, 0real), a, b, a); }
    }
//@ end
//@ fn src/data/vector.rs | impl Vector<T, 2> | cmp_along
//@ ret o
//@ spec
    ensures o == rcmp(dot2(vxy(*self), pxy(*p)), dot2(vxy(*self), pxy(*q)))
//@ top
    proof { dot2_diff(vxy(*self), pxy(*p), pxy(*q)); perp_is_dot(vxy(*self), psub(pxy(*q), pxy(*p))); }
//@ end
}
pub proof fn dot2_diff(z: P2, a: P2, b: P2) ensures dot2(z, psub(b, a)) == dot2(z, b) - dot2(z, a)
{ rd(z.0, b.0, a.0); rd(z.1, b.1, a.1); }
} // verus!
