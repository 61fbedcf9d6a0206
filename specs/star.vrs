// Star polygons: the given points in angular order around a point.
verus! {
//@ fn src/algorithms/polygonization/star.rs | - | new_star_polygon
//@ ret r
//@ spec
    ensures match r {
        // a simple counterclockwise polygon with the given points as its vertices, in angular order around the point
        Ok(q) => mong::simple_made(q) && mong::same_bag(vertices@, q.points@) && mong::around(pxy(*point), vs(q.points@)),
        Err(_) => exists|s: Seq<Point<T, 2>>| #[trigger] mong::same_bag(vertices@, s) && mong::around(pxy(*point), vs(s)) && !simple_ring(vs(s)),
    }
//@ closure 0
    -> (o: Ordering) ensures o == acmp((1real, 0real), psub(pxy(*a), pxy(*point)), psub(pxy(*b), pxy(*point)))
//@ top
    hide(acmp); hide(simple_ring); hide(ring_turn); hide(wf);
    let ghost inp = vertices@;
    proof { mong::round_laws(); }
//@ tail res
    proof { assert(mong::same_bag(inp, vertices@)); assert(mong::around(pxy(*point), vs(vertices@))); }
//@ end
} // verus!
