// Pairwise segment intersections; validity of polygons.
verus! {
// e is seen as the segment v
pub open spec fn sees<'a, Edge, T: PolygonScalar + 'a>(e: &'a Edge, v: LineSegmentView<'a, T, 2>) -> bool where &'a Edge: Into<LineSegmentView<'a, T, 2>> { call_ensures(<&'a Edge as Into<LineSegmentView<'a, T, 2>>>::into, (e,), v) }
pub open spec fn edge_ok<'a, Edge, T: PolygonScalar + 'a>(e: &'a Edge) -> bool where &'a Edge: Into<LineSegmentView<'a, T, 2>> {
    call_requires(<&'a Edge as Into<LineSegmentView<'a, T, 2>>>::into, (e,)) && forall|v: LineSegmentView<'a, T, 2>| #[trigger] sees::<Edge, T>(e, v) ==> vord(v)
}
pub open spec fn edges_meet<'a, Edge, T: PolygonScalar + 'a>(e: &'a Edge, f: &'a Edge) -> bool where &'a Edge: Into<LineSegmentView<'a, T, 2>> {
    exists|v: LineSegmentView<'a, T, 2>, w: LineSegmentView<'a, T, 2>| #[trigger] sees::<Edge, T>(e, v) && #[trigger] sees::<Edge, T>(f, w) && meets(vseg(v), vseg(w))
}
pub open spec fn edges_miss<'a, Edge, T: PolygonScalar + 'a>(e: &'a Edge, f: &'a Edge) -> bool where &'a Edge: Into<LineSegmentView<'a, T, 2>> {
    exists|v: LineSegmentView<'a, T, 2>, w: LineSegmentView<'a, T, 2>| #[trigger] sees::<Edge, T>(e, v) && #[trigger] sees::<Edge, T>(f, w) && !meets(vseg(v), vseg(w))
}
pub open spec fn pair_at<'a, E>(s: Seq<E>, z: (&'a E, &'a E), i: int, j: int) -> bool { 0 <= j < i < s.len() && *z.0 == s[i] && *z.1 == s[j] }
pub open spec fn paired<'a, E>(s: Seq<E>, q: Seq<(&'a E, &'a E)>, i: int, j: int) -> bool { exists|k: int| 0 <= k < q.len() && #[trigger] pair_at(s, q[k], i, j) }
pub open spec fn paired_up<'a, E>(s: Seq<E>, z: (&'a E, &'a E)) -> bool { exists|i: int, j: int| pair_at(s, z, i, j) }
pub open spec fn met<'a, Edge, T: PolygonScalar + 'a>(s: Seq<Edge>, z: (&'a Edge, &'a Edge)) -> bool where &'a Edge: Into<LineSegmentView<'a, T, 2>> { exists|i: int, j: int| #[trigger] pair_at(s, z, i, j) && edges_meet::<Edge, T>(&s[i], &s[j]) }
// every element pairs two different positions of the slice, and every such pair is an element
pub open spec fn pairs_only<'a, E>(s: Seq<E>, q: Seq<(&'a E, &'a E)>) -> bool { forall|k: int| 0 <= k < q.len() ==> paired_up(s, #[trigger] q[k]) }
pub open spec fn pairs_all<'a, E>(s: Seq<E>, q: Seq<(&'a E, &'a E)>) -> bool { forall|i: int, j: int| 0 <= j < i < s.len() ==> #[trigger] paired(s, q, i, j) }
pub open spec fn pair_row<'a, E>(s: Seq<E>, q: Seq<(&'a E, &'a E)>, i: int) -> bool { q.len() <= i && forall|k: int| 0 <= k < q.len() ==> pair_at(s, #[trigger] q[k], i, k) }
//@ fn src/algorithms/intersection/naive.rs | - | pairs
//@ ret r
//@ rewrite? .map( =>> .vmaps(
//@ closure 0
    -> (u: VSome<(&E, &E)>)
        requires a < slice@.len()
        ensures u.obeys_prophetic_iter_laws(), pair_row(slice@, u.remaining(), a as int), u.will_return_none() ==> u.remaining().len() == a
//@ closure 1
    -> (y: (&E, &E))
        requires b < a < slice@.len()
        ensures pair_at(slice@, y, a as int, b as int)
//@ tail res
    proof {
        let s = slice@;
        assert forall|k: int| 0 <= k < res.remaining().len() implies paired_up(s, #[trigger] res.remaining()[k]) by {
            let y = res.remaining()[k];
            let (i, m) = choose|i: int, m: int| 0 <= i < s.len() && pair_at(s, y, i, m);
            assert(pair_at(s, res.remaining()[k], i, m));
        }
        assert forall|i: int, j: int| res.will_return_none() && 0 <= j < i < s.len() implies #[trigger] paired(s, res.remaining(), i, j) by {
            assert(at_(i));
            assert(exists|u: VSome<(&E, &E)>| u.will_return_none() && pair_row(s, u.remaining(), i) && u.remaining().len() == i && forall|m: int| 0 <= m < (#[trigger] u.remaining()).len() ==> res.remaining().contains(#[trigger] u.remaining()[m]));
            let u = choose|u: VSome<(&E, &E)>| u.will_return_none() && pair_row(s, u.remaining(), i) && u.remaining().len() == i && forall|m: int| 0 <= m < (#[trigger] u.remaining()).len() ==> res.remaining().contains(#[trigger] u.remaining()[m]);
            assert(res.remaining().contains(u.remaining()[j]) && pair_at(s, u.remaining()[j], i, j));
            let k = choose|k: int| 0 <= k < res.remaining().len() && res.remaining()[k] == u.remaining()[j];
            assert(pair_at(s, res.remaining()[k], i, j));
        }
    }
//@ spec
    ensures r.obeys_prophetic_iter_laws(), pairs_only(slice@, r.remaining()), r.will_return_none() ==> pairs_all(slice@, r.remaining())
//@ end
//@ fn src/algorithms/intersection/naive.rs | - | segment_intersections
//@ ret r
//@ rewrite pairs(edges). =>> let vx_ps = pairs(edges); vx_ps.
//@ spec
    requires forall|i: int| 0 <= i < edges@.len() ==> edge_ok::<Edge, T>(&#[trigger] edges@[i])
    ensures
        r.obeys_prophetic_iter_laws(),
        forall|k: int| 0 <= k < r.remaining().len() ==> met::<Edge, T>(edges@, #[trigger] r.remaining()[k]),
        r.will_return_none() ==> forall|i: int, j: int| 0 <= j < i < edges@.len() ==> edges_miss::<Edge, T>(&edges@[i], &edges@[j]) || #[trigger] paired(edges@, r.remaining(), i, j),
//@ closure 0
    -> (o: Option<(&'a Edge, &'a Edge)>)
        requires edge_ok::<Edge, T>(vx_p1.0), edge_ok::<Edge, T>(vx_p1.1)
        ensures
            o is None ==> edges_miss::<Edge, T>(vx_p1.0, vx_p1.1),
            o is Some ==> o == Some((vx_p1.0, vx_p1.1)) && edges_meet::<Edge, T>(vx_p1.0, vx_p1.1)
//@ before let _isect
    assert(sees::<Edge, T>(a, a_edge)); assert(sees::<Edge, T>(b, b_edge));
//@ tail vx_r
    proof {
        assert forall|k: int| 0 <= k < vx_r.remaining().len() implies met::<Edge, T>(edges@, #[trigger] vx_r.remaining()[k]) by {
            let y = vx_r.remaining()[k];
            assert(exists|l: int| 0 <= l < vx_ps.remaining().len() && #[trigger] vx_ps.remaining()[l] == y && edges_meet::<Edge, T>(y.0, y.1));
            let l = choose|l: int| 0 <= l < vx_ps.remaining().len() && #[trigger] vx_ps.remaining()[l] == y && edges_meet::<Edge, T>(y.0, y.1);
            assert(paired_up(edges@, vx_ps.remaining()[l]));
            let (i, j) = choose|i: int, j: int| pair_at(edges@, y, i, j);
            assert(pair_at(edges@, y, i, j) && edges_meet::<Edge, T>(&edges@[i], &edges@[j]));
        }
            assert forall|i: int, j: int| vx_r.will_return_none() && 0 <= j < i < edges@.len() implies edges_miss::<Edge, T>(&edges@[i], &edges@[j]) || #[trigger] paired(edges@, vx_r.remaining(), i, j) by {
                assert(paired(edges@, vx_ps.remaining(), i, j));
                let l = choose|l: int| 0 <= l < vx_ps.remaining().len() && #[trigger] pair_at(edges@, vx_ps.remaining()[l], i, j);
                let y = vx_ps.remaining()[l];
                assert(edges_miss::<Edge, T>(y.0, y.1) || exists|k: int| 0 <= k < vx_r.remaining().len() && #[trigger] vx_r.remaining()[k] == y);
                let k = choose|k: int| 0 <= k < vx_r.remaining().len() && #[trigger] vx_r.remaining()[k] == y;
                assert(edges_miss::<Edge, T>(y.0, y.1) || pair_at(edges@, vx_r.remaining()[k], i, j));
            }
    }
//@ end
} // verus!

pub mod algorithms { pub use super::segment_intersections; }
verus! {
//@ item src/data/polygon/iter.rs | Iter | fields=pub
impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for Iter<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.iter) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a Point<T, 2>> { IteratorSpec::remaining(&self.iter) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.iter) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.iter) }
    open spec fn peek(&self, i: int) -> Option<&'a Point<T, 2>> { IteratorSpec::peek(&self.iter, i) }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a Point<T, 2>;
//@ fn src/data/polygon/iter.rs | Iterator for Iter<'a, T> | next
//@ end
}
// the set of points seen so far (std::collections::BTreeSet under the contract its documentation states: insert
// tells whether no element comparing equal was present)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VSet<'a, T> { x: std::marker::PhantomData<&'a T> }
impl<'a, T: PolygonScalar> VSet<'a, T> {
    pub uninterp spec fn seq(&self) -> Seq<&'a Point<T, 2>>;
    #[verifier::external_body]
    fn new() -> (r: VSet<'a, T>) ensures r.seq() == Seq::<&'a Point<T, 2>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, p: &'a Point<T, 2>) -> (r: bool)
        ensures
            r == forall|k: int| 0 <= k < old(self).seq().len() ==> (#[trigger] old(self).seq()[k]).tcmp(p) != Ordering::Equal,
            final(self).seq() == if r { old(self).seq().push(p) } else { old(self).seq() }
    { unimplemented!() }
}
pub open spec fn distinct<T: PolygonScalar>(s: Seq<Point<T, 2>>) -> bool { forall|i: int, j: int| 0 <= j < i < s.len() ==> pxy(#[trigger] s[j]) != pxy(#[trigger] s[i]) }
pub open spec fn ring_seg<T: PolygonScalar>(p: Polygon<T>, i: int) -> Seg { eseg(at(p, 0, i), at(p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))) }
// no two edges (source included, destination excluded) have a common point
pub open spec fn edges_apart<T: PolygonScalar>(p: Polygon<T>) -> bool { forall|i: int, j: int| 0 <= j < i < p.rings@[0]@.len() ==> !meets(#[trigger] ring_seg(p, i), #[trigger] ring_seg(p, j)) }
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | iter
//@ ret r
//@ spec
    ensures r.remaining() == self.points@.as_ref(), r.obeys_prophetic_iter_laws(), r.decrease() is Some
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | validate_weakly
//@ ret r
//@ spec
    requires wf(*self)
    ensures match r {
        Ok(_) => self.rings@[0]@.len() >= 3 && ring_turn(*self, Orientation::CounterClockWise) && edges_apart(*self),
        Err(Error::InsufficientVertices) => self.rings@[0]@.len() < 3,
        Err(Error::ClockWiseViolation) => ring_turn(*self, Orientation::ClockWise) || ring_turn(*self, Orientation::CoLinear),
        Err(e) => e == Error::SelfIntersections && ring_turn(*self, Orientation::CounterClockWise) && !edges_apart(*self),
    }
//@ top
    hide(meets); hide(seg_has); hide(edges_meet); hide(edges_miss); hide(edge_ok);
    proof { ringp::edge_list::<T>(self); }
//@ after_stmt let edges
    let ghost es = edges@;
    assert(forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> eseg(*es[i].src, *es[i].dst) == ring_seg(*self, i));
    assert(es.len() == self.rings@[0]@.len());
    assert forall|i: int| 0 <= i < es.len() implies edge_ok::<DirectedEdge<'_, T, 2>, T>(&#[trigger] es[i]) by { validp::ok1::<T>(&es[i]); }
//@ after_stmt let mut isects
    let ghost it = isects;
    proof {
        validp::judged(*self, es, it.remaining());
    }
//@ end
}
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | validate
//@ ret r
//@ rewrite std::collections::BTreeSet =>> VSet
//@ spec
    requires wf(*self)
    ensures match r {
        Ok(_) => distinct(self.points@) && self.rings@[0]@.len() >= 3 && ring_turn(*self, Orientation::CounterClockWise) && edges_apart(*self),
        Err(Error::DuplicatePoints) => !distinct(self.points@),
        Err(Error::InsufficientVertices) => self.rings@[0]@.len() < 3,
        Err(Error::ClockWiseViolation) => ring_turn(*self, Orientation::ClockWise) || ring_turn(*self, Orientation::CoLinear),
        Err(e) => e == Error::SelfIntersections && ring_turn(*self, Orientation::CounterClockWise) && !edges_apart(*self),
    }
//@ before for pt
    assert(seen.seq() == self.points@.as_ref().take(0)); assert(distinct(self.points@.take(0)));
//@ loop 0 iter it
    invariant
        it.seq() == self.points@.as_ref(),
        seen.seq() == self.points@.as_ref().take(it.index@ as int),
        distinct(self.points@.take(it.index@ as int)),
//@ loop_top 0
    let ghost k = it.index@ as int; let ghost was = seen.seq();
    proof { validp::grown(self.points@, was, k); assert(*pt == self.points@[k]); }
//@ loop_bottom 0
    assert(seen.seq() =~= self.points@.as_ref().take(k + 1)); assert(self.points@.take(self.points@.len() as int) =~= self.points@);
//@ top
    proof { assert(self.points@.as_ref().take(0) =~= Seq::empty()); assert(self.points@.take(self.points@.len() as int) =~= self.points@); }
//@ end
}
} // verus!

pub mod validp { use super::*; verus! {
pub proof fn ok1<'a, T: PolygonScalar>(e: &'a DirectedEdge<'a, T, 2>)
    ensures edge_ok::<DirectedEdge<'a, T, 2>, T>(e)
{
    assert forall|v: LineSegmentView<'a, T, 2>| #[trigger] sees::<DirectedEdge<'a, T, 2>, T>(e, v) implies vord(v) by { edgep::same_all::<T>(e.src, e.dst); }
}
pub proof fn same_meets(s: Seg, t: Seg, v: Seg, w: Seg)
    requires edgep::same_seg(s, v), edgep::same_seg(t, w)
    ensures meets(s, t) == meets(v, w)
{
    edgep::same_has(s, v); edgep::same_has(t, w);
    if meets(s, t) { let p = choose|p: P2| seg_has(s, p) && seg_has(t, p); assert(seg_has(v, p) && seg_has(w, p)); }
    if meets(v, w) { let p = choose|p: P2| seg_has(v, p) && seg_has(w, p); assert(seg_has(s, p) && seg_has(t, p)); }
}
proof fn seen_as<'a, T: PolygonScalar>(e: &'a DirectedEdge<'a, T, 2>, v: LineSegmentView<'a, T, 2>)
    requires sees::<DirectedEdge<'a, T, 2>, T>(e, v)
    ensures edgep::same_seg(eseg(*e.src, *e.dst), vseg(v))
{ edgep::same_all::<T>(e.src, e.dst); assert(edge_is(e.src, e.dst, v)); }
pub proof fn meet2<'a, T: PolygonScalar>(e: &'a DirectedEdge<'a, T, 2>, f: &'a DirectedEdge<'a, T, 2>)
    ensures
        edges_meet::<DirectedEdge<'a, T, 2>, T>(e, f) ==> meets(eseg(*e.src, *e.dst), eseg(*f.src, *f.dst)),
        edges_miss::<DirectedEdge<'a, T, 2>, T>(e, f) ==> !meets(eseg(*e.src, *e.dst), eseg(*f.src, *f.dst)),
{
    hide(meets); hide(seg_has);
    if edges_meet::<DirectedEdge<'a, T, 2>, T>(e, f) {
        let (v, w) = choose|v: LineSegmentView<'a, T, 2>, w: LineSegmentView<'a, T, 2>| #[trigger] sees::<DirectedEdge<'a, T, 2>, T>(e, v) && #[trigger] sees::<DirectedEdge<'a, T, 2>, T>(f, w) && meets(vseg(v), vseg(w));
        seen_as(e, v); seen_as(f, w); same_meets(eseg(*e.src, *e.dst), eseg(*f.src, *f.dst), vseg(v), vseg(w));
    }
    if edges_miss::<DirectedEdge<'a, T, 2>, T>(e, f) {
        let (v, w) = choose|v: LineSegmentView<'a, T, 2>, w: LineSegmentView<'a, T, 2>| #[trigger] sees::<DirectedEdge<'a, T, 2>, T>(e, v) && #[trigger] sees::<DirectedEdge<'a, T, 2>, T>(f, w) && !meets(vseg(v), vseg(w));
        seen_as(e, v); seen_as(f, w); same_meets(eseg(*e.src, *e.dst), eseg(*f.src, *f.dst), vseg(v), vseg(w));
    }
}
// one more point
pub proof fn grown<'a, T: PolygonScalar>(s: Seq<Point<T, 2>>, q: Seq<&'a Point<T, 2>>, k: int)
    requires 0 <= k < s.len(), distinct(s.take(k)), q == s.as_ref().take(k)
    ensures
        (forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).tcmp(&s[k]) != Ordering::Equal) == distinct(s.take(k + 1)),
        distinct(s) ==> distinct(s.take(k + 1)),
{
    let all = forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).tcmp(&s[k]) != Ordering::Equal;
    assert(q.len() == k); assert(forall|j: int| 0 <= j < k ==> *(#[trigger] q[j]) == s[j]);
    if all {
        assert forall|i: int, j: int| 0 <= j < i < k + 1 implies pxy(#[trigger] s.take(k + 1)[j]) != pxy(#[trigger] s.take(k + 1)[i]) by {
            point_order_2d(s[j], s[k]);
            assert(*q[j] == s[j]);
            if i < k { assert(s.take(k)[j] == s[j] && s.take(k)[i] == s[i]); }
        }
    }
    if distinct(s.take(k + 1)) {
        assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).tcmp(&s[k]) != Ordering::Equal by {
            point_order_2d(s[j], s[k]);
            assert(s.take(k + 1)[j] == s[j] && s.take(k + 1)[k] == s[k]);
        }
    }
    if distinct(s) {
        assert forall|i: int, j: int| 0 <= j < i < k + 1 implies pxy(#[trigger] s.take(k + 1)[j]) != pxy(#[trigger] s.take(k + 1)[i]) by { assert(pxy(s[j]) != pxy(s[i])); }
    }
}
// what the list of intersecting pairs says about the ring
pub proof fn judged<'a, T: PolygonScalar>(p: Polygon<T>, es: Seq<DirectedEdge<'a, T, 2>>, q: Seq<(&'a DirectedEdge<'a, T, 2>, &'a DirectedEdge<'a, T, 2>)>)
    requires es.len() == p.rings@[0]@.len(), forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> eseg(*es[i].src, *es[i].dst) == ring_seg(p, i)
    ensures
        q.len() > 0 && met::<DirectedEdge<'a, T, 2>, T>(es, q[0]) ==> !edges_apart(p),
        q.len() == 0 && (forall|i: int, j: int| 0 <= j < i < es.len() ==> edges_miss::<DirectedEdge<'a, T, 2>, T>(&es[i], &es[j]) || #[trigger] paired(es, q, i, j)) ==> edges_apart(p),
{
    hide(meets); hide(edges_meet); hide(edges_miss);
    if q.len() > 0 && met::<DirectedEdge<'a, T, 2>, T>(es, q[0]) {
        let (i, j) = choose|i: int, j: int| #[trigger] pair_at(es, q[0], i, j) && edges_meet::<DirectedEdge<'a, T, 2>, T>(&es[i], &es[j]);
        meet2(&es[i], &es[j]); assert(meets(ring_seg(p, i), ring_seg(p, j)));
    }
    if q.len() == 0 && (forall|i: int, j: int| 0 <= j < i < es.len() ==> edges_miss::<DirectedEdge<'a, T, 2>, T>(&es[i], &es[j]) || #[trigger] paired(es, q, i, j)) {
        assert forall|i: int, j: int| 0 <= j < i < p.rings@[0]@.len() implies !meets(#[trigger] ring_seg(p, i), #[trigger] ring_seg(p, j)) by { assert(!paired(es, q, i, j)); meet2(&es[i], &es[j]); }
    }
}
} }
