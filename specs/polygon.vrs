// Polygons: index structure, cursors, traversal, in-place reversal.
verus! {
//@ item src/data/polygon.rs | PositionId | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/data/polygon.rs | RingId | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/data/polygon.rs | PointId | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/data/polygon.rs | DirectedIndexEdge | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/data/polygon.rs | IndexEdge | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/data/polygon.rs | Position | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@ item src/data/polygon.rs | Polygon | fields=pub
//@ item src/data/polygon.rs | Cursor | fields=priv
//@ item src/data/polygon/iter.rs | CursorIter | fields=priv
//@ item src/data/polygon/iter.rs | EdgeIter | fields=priv

pub open spec fn ix_maps<T>(p: Polygon<T>) -> bool {
    &&& p.ring_index@.len() == p.points@.len() && p.position_index@.len() == p.points@.len()
    // every vertex slot of every ring names a point that knows its slot
    &&& forall|r: int, k: int| #![trigger p.rings@[r]@[k]] 0 <= r < p.rings@.len() && 0 <= k < p.rings@[r]@.len() ==> {
            let id = p.rings@[r]@[k].0;
            id < p.points@.len() && p.ring_index@[id as int].0 == r && p.position_index@[id as int].0 == k
        }
    // and every point is in the slot it names
    &&& forall|id: int| #![trigger p.ring_index@[id]] #![trigger p.position_index@[id]] 0 <= id < p.points@.len() ==> {
            let r = p.ring_index@[id].0 as int; let k = p.position_index@[id].0 as int;
            r < p.rings@.len() && k < p.rings@[r]@.len() && p.rings@[r]@[k].0 == id
        }
}
// a polygon value is well-formed
pub open spec fn wf<T>(p: Polygon<T>) -> bool {
    &&& p.rings@.len() >= 1
    &&& forall|r: int| 0 <= r < p.rings@.len() ==> #[trigger] p.rings@[r]@.len() >= 1
    &&& ix_maps(p)
}
pub open spec fn okpos<T>(p: Polygon<T>, q: Position) -> bool {
    q.ring_id.0 < p.rings@.len() && q.size == p.rings@[q.ring_id.0 as int]@.len() && q.position_id.0 < q.size
}
pub open spec fn at<T>(p: Polygon<T>, r: int, k: int) -> Point<T> { p.points@[p.rings@[r]@[k].0 as int] }
pub open spec fn ring_side(r: Seq<PointId>, i: int) -> (PointId, PointId) { (r[i], r[wrapi(i + 1, r.len() as int)]) }
pub open spec fn wrapi(k: int, n: int) -> int { if k >= n { k - n } else if k < 0 { k + n } else { k } }
// the position k steps further (-n <= k <= n)
pub open spec fn stepp(q: Position, k: int) -> Position { Position { ring_id: q.ring_id, size: q.size, position_id: PositionId(wrapi(q.position_id.0 + k, q.size as int) as usize) } }
// the turn at vertex k of ring r
pub open spec fn vturn<T: PolygonScalar>(p: Polygon<T>, r: int, k: int) -> Orientation {
    let n = p.rings@[r]@.len() as int;
    orient3(pxy(at(p, r, wrapi(k - 1, n))), pxy(at(p, r, k)), pxy(at(p, r, wrapi(k + 1, n))))
}
// vertex k is a lexicographically smallest one of ring 0 (an extreme point of the polygon)
pub open spec fn lowest<T: PolygonScalar>(p: Polygon<T>, k: int) -> bool {
    0 <= k < p.rings@[0]@.len() && forall|j: int| 0 <= j < p.rings@[0]@.len() ==> plex(pxy(at(p, 0, k)), pxy(#[trigger] at(p, 0, j))) != Ordering::Greater
}
// the boundary turns o at such a vertex
pub open spec fn ring_turn<T: PolygonScalar>(p: Polygon<T>, o: Orientation) -> bool { exists|k: int| #[trigger] lowest(p, k) && o == vturn(p, 0, k) }
// ring 0 of b is ring 0 of a read from vertex k on
pub open spec fn rotated<T: TotalOrd>(a: Polygon<T>, b: Polygon<T>, k: int) -> bool {
    a.rings@[0]@.len() == b.rings@[0]@.len() && forall|i: int| 0 <= i < b.rings@[0]@.len() ==> (&at(a, 0, wrapi(k + i, a.rings@[0]@.len() as int))).tcmp(&#[trigger] at(b, 0, i)) == Ordering::Equal
}
pub open spec fn same_ring<T: TotalOrd>(a: Polygon<T>, b: Polygon<T>) -> bool { exists|k: int| 0 <= k < a.rings@[0]@.len() && #[trigger] rotated(a, b, k) }
// number of vertices from a to b, both included, going forward
pub open spec fn span(a: Position, b: Position) -> int { if a.position_id.0 <= b.position_id.0 { b.position_id.0 - a.position_id.0 + 1 } else { a.size - a.position_id.0 + b.position_id.0 + 1 } }
pub open spec fn same_rings<T>(a: Polygon<T>, b: Polygon<T>, but: int) -> bool {
    a.rings@.len() == b.rings@.len() && a.ring_index == b.ring_index && (forall|r: int| #![trigger a.rings@[r]] #![trigger b.rings@[r]] 0 <= r < a.rings@.len() ==> a.rings@[r]@.len() == b.rings@[r]@.len())
    && forall|r: int| 0 <= r < a.rings@.len() && r != but ==> #[trigger] a.rings@[r]@ == b.rings@[r]@
}
// the vertex k places after slot `from` of a ring
pub open spec fn rix(s: Seq<PointId>, from: int, k: int) -> PointId { s[wrapi(from + k, s.len() as int)] }
// b is a with the outer j pairs of the len vertices starting at `from` exchanged
pub open spec fn rev_upto(a: Seq<PointId>, b: Seq<PointId>, from: int, len: int, j: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] rix(b, from, k) == if k < len && (k < j || k >= len - j) { rix(a, from, len - 1 - k) } else { rix(a, from, k) }
}
// b is a with the vertex len places after `from` moved j places back
pub open spec fn joined(a: Seq<PointId>, b: Seq<PointId>, from: int, len: int, j: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] rix(b, from, k) == if k == len - j { rix(a, from, len) } else if len - j < k <= len { rix(a, from, k - 1) } else { rix(a, from, k) }
}
// the constructor PositionId as a function
fn position_ctor(i: usize) -> (q: PositionId) ensures q == PositionId(i) { PositionId(i) }
// the constructor PointId as a function
fn point_ctor(i: usize) -> (q: PointId) ensures q == PointId(i) { PointId(i) }
impl Position {
//@ fn src/data/polygon.rs | impl Position | move_next
//@ spec
    requires old(self).position_id.0 < old(self).size
    ensures *final(self) == stepp(*old(self), 1)
    no_unwind
//@ end
//@ fn src/data/polygon.rs | impl Position | move_prev
//@ spec
    requires old(self).position_id.0 < old(self).size
    ensures *final(self) == stepp(*old(self), -1)
    no_unwind
//@ end
//@ fn src/data/polygon.rs | impl Position | next
//@ ret r
//@ spec
    requires self.position_id.0 < self.size
    ensures r == stepp(self, 1)
//@ end
//@ fn src/data/polygon.rs | impl Position | prev
//@ ret r
//@ spec
    requires self.position_id.0 < self.size
    ensures r == stepp(self, -1)
//@ end
}
impl PartialOrdSpecImpl for PointId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(icmp(self.0 as int, other.0 as int)) }
}
impl PartialOrd for PointId {
    // derived in the source: field order
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { if self.0 < other.0 { Some(Ordering::Less) } else if self.0 == other.0 { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl OrdSpecImpl for PointId {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { icmp(self.0 as int, other.0 as int) }
}
impl Ord for PointId {
    fn cmp(&self, other: &Self) -> Ordering { if self.0 < other.0 { Ordering::Less } else if self.0 == other.0 { Ordering::Equal } else { Ordering::Greater } }
}
impl PointId {
//@ fn src/data/polygon.rs | impl PointId | usize
//@ ret r
//@ spec
    ensures r == self.0
//@ end
}
impl IndexEdge {
//@ fn src/data/polygon.rs | impl IndexEdge | new
//@ ret r
//@ spec
    ensures r.min.0 <= r.max.0, (r.min == a && r.max == b) || (r.min == b && r.max == a)
//@ end
}
impl<'a, T> Clone for Cursor<'a, T> {
//@ fn src/data/polygon.rs | Clone for Cursor<'_, T> | clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'a, T> Copy for Cursor<'a, T> {}
impl<'a, T> PartialEqSpecImpl for Cursor<'a, T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Cursor<'a, T>) -> bool { self.pos() == other.pos() }
}
impl<'a, T> PartialEq for Cursor<'a, T> {
//@ fn src/data/polygon.rs | PartialEq for Cursor<'a, T> | eq
//@ end
}
impl<'a, T> Cursor<'a, T> {
    // a cursor always denotes a vertex of a well-formed polygon
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { wf(*self.polygon) && okpos(*self.polygon, self.position) }
    pub closed spec fn pos(self) -> Position { self.position }
    pub closed spec fn poly(self) -> &'a Polygon<T> { self.polygon }
    pub closed spec fn step(self, k: int) -> Cursor<'a, T> { Cursor { polygon: self.polygon, position: stepp(self.position, k) } }
    pub open spec fn pt(self) -> Point<T> { at(*self.poly(), self.pos().ring_id.0 as int, self.pos().position_id.0 as int) }
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | point_id
//@ ret r
//@ spec
    ensures r == self.poly().rings@[self.pos().ring_id.0 as int]@[self.pos().position_id.0 as int], r.0 < self.poly().points@.len(), wf(*self.poly()), okpos(*self.poly(), self.pos())
//@ top
    proof { use_type_invariant(self); }
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | prev
//@ ret r
//@ spec
    ensures r == self.step(-1)
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | next
//@ ret r
//@ spec
    ensures r == self.step(1)
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | point
//@ ret r
//@ spec
    ensures *r == self.pt()
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | move_next
//@ spec
    ensures *final(self) == old(self).step(1)
    no_unwind
//@ top
    proof { use_type_invariant(&*self); }
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | move_prev
//@ spec
    ensures *final(self) == old(self).step(-1)
    no_unwind
//@ top
    proof { use_type_invariant(&*self); }
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | orientation
//@ ret r
//@ spec
    ensures r == orient3(pxy(self.step(-1).pt()), pxy(self.pt()), pxy(self.step(1).pt()))
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | is_colinear
//@ ret r
//@ spec
    ensures r == (orient3(pxy(self.step(-1).pt()), pxy(self.pt()), pxy(self.step(1).pt())) == Orientation::CoLinear)
//@ end
//@ fn src/data/polygon.rs | impl Cursor<'a, T> | to
//@ ret r
//@ spec
    requires
        match end { Bound::Unbounded => true, Bound::Included(e) => e.poly() == self.poly() && e.pos().ring_id == self.pos().ring_id, Bound::Excluded(e) => e.poly() == self.poly() && e.pos().ring_id == self.pos().ring_id },
    ensures
        !r.done(), r.head() == self,
        match end { Bound::Unbounded => r.tail() == self.step(-1), Bound::Included(e) => r.tail() == e, Bound::Excluded(e) => r.tail() == e.step(-1) },
//@ top
    proof { use_type_invariant(self); match end { Bound::Unbounded => {}, Bound::Included(e) => { use_type_invariant(e); }, Bound::Excluded(e) => { use_type_invariant(e); } } }
//@ end
}
impl<'a, T> CursorIter<'a, T> {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool {
        self.cursor_head.polygon == self.cursor_tail.polygon && self.cursor_head.position.ring_id == self.cursor_tail.position.ring_id
    }
    pub closed spec fn head(&self) -> Cursor<'a, T> { self.cursor_head }
    pub closed spec fn tail(&self) -> Cursor<'a, T> { self.cursor_tail }
    pub closed spec fn done(&self) -> bool { self.exhausted }
    // number of cursors still to come
    pub open spec fn left(&self) -> int {
        let (h, t) = (self.head().pos().position_id.0 as int, self.tail().pos().position_id.0 as int);
        if self.done() { 0 } else if h <= t { t - h + 1 } else { self.head().pos().size - h + t + 1 }
    }
    pub open spec fn seq(&self) -> Seq<Cursor<'a, T>> { Seq::new(self.left() as nat, |i: int| self.head().step(i)) }
}
impl<'a, T> Clone for CursorIter<'a, T> {
//@ fn src/data/polygon/iter.rs | Clone for CursorIter<'_, T> | clone
//@ ret r
//@ spec
    ensures r == *self
//@ top
    proof { use_type_invariant(self); }
//@ end
}
impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for CursorIter<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<Cursor<'a, T>> { self.seq() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left() as nat) }
    open spec fn peek(&self, i: int) -> Option<Cursor<'a, T>> { if 0 <= i < self.left() { Some(self.head().step(i)) } else { None } }
}
impl<'a, T> Iterator for CursorIter<'a, T> {
    type Item = Cursor<'a, T>;
//@ fn src/data/polygon/iter.rs | Iterator for CursorIter<'a, T> | next
//@ ret r
//@ spec
    ensures
        old(self).done() ==> r is None && *final(self) == *old(self),
        !old(self).done() ==> r == Some(old(self).head()),
        !old(self).done() && old(self).head().pos() == old(self).tail().pos() ==> final(self).done(),
        !old(self).done() && old(self).head().pos() != old(self).tail().pos() ==> !final(self).done() && final(self).head() == old(self).head().step(1) && final(self).tail() == old(self).tail(),
//@ top
    proof { use_type_invariant(&*self); use_type_invariant(self.cursor_head); use_type_invariant(self.cursor_tail); citer::first(*self); }
//@ end
}
impl<'a, T> CursorIter<'a, T> {
//@ fn src/data/polygon/iter.rs | ExactSizeIterator for CursorIter<'_, T> | len
//@ ret r
//@ spec
    ensures r == self.left()
//@ top
    proof { use_type_invariant(self); use_type_invariant(self.cursor_head); use_type_invariant(self.cursor_tail); }
//@ end
//@ fn src/data/polygon/iter.rs | Iterator for CursorIter<'a, T> | size_hint
//@ ret r
//@ spec
    ensures r == (self.left() as usize, Some(self.left() as usize))
//@ end
}
impl<'a, T> CursorIter<'a, T> {
//@ fn src/data/polygon/iter.rs | DoubleEndedIterator for CursorIter<'_, T> | next_back
//@ ret r
//@ spec
    ensures
        old(self).done() ==> r is None,
        !old(self).done() ==> r == Some(old(self).tail()) && final(self).seq() == old(self).seq().drop_last() && old(self).tail() == old(self).seq().last(),
//@ rewrite? Option<Self::Item> =>> Option<Cursor<'a, T>>
//@ top
    proof { use_type_invariant(&*self); use_type_invariant(self.cursor_head); use_type_invariant(self.cursor_tail); citer::last(*self); }
//@ end
}
impl<'a, 'b, T: TotalOrd> PartialEqSpecImpl<CursorIter<'b, T>> for CursorIter<'a, T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &CursorIter<'b, T>) -> bool { self.left() == other.left() && forall|i: int| 0 <= i < self.left() ==> (&(#[trigger] self.seq()[i]).pt()).tcmp(&other.seq()[i].pt()) == Ordering::Equal }
}
impl<'a, 'b, T: TotalOrd> PartialEq<CursorIter<'b, T>> for CursorIter<'a, T> {
//@ fn src/data/polygon/iter.rs | PartialEq<CursorIter<'_, T>> for CursorIter<'_, T> | eq
//@ rewrite? CursorIter<'_, T> =>> CursorIter<'b, T>
//@ loop 0 iter it
    invariant self.left() == other.left(), it.seq().len() == self.left(), forall|i: int| 0 <= i < it.index@ ==> (&(#[trigger] self.seq()[i]).pt()).tcmp(&other.seq()[i].pt()) == Ordering::Equal
//@ loop_top 0
    proof { assert(a == self.seq()[it.index@ as int] && b == other.seq()[it.index@ as int]); }
//@ top
    proof { use_type_invariant(self); use_type_invariant(self.cursor_head); use_type_invariant(self.cursor_tail); }
//@ end
}
impl<'a, T> EdgeIter<'a, T> {
    pub closed spec fn it(&self) -> CursorIter<'a, T> { self.iter }
    pub open spec fn edge(c: Cursor<'a, T>) -> (Point<T, 2>, Point<T, 2>) { (c.pt(), c.step(1).pt()) }
}
pub open spec fn edge_of<'a, T: TotalOrd>(c: Cursor<'a, T>, e: DirectedEdge<'a, T, 2>) -> bool { *e.src == c.pt() && *e.dst == c.step(1).pt() }
impl<'a, T: TotalOrd + Clone> vstd::std_specs::iter::IteratorSpecImpl for EdgeIter<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<DirectedEdge<'a, T, 2>> { Seq::new(self.it().left() as nat, |i: int| mk_edge(self.it().head().step(i))) }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.it().left() as nat) }
    open spec fn peek(&self, i: int) -> Option<DirectedEdge<'a, T, 2>> { if 0 <= i < self.it().left() { Some(mk_edge(self.it().head().step(i))) } else { None } }
}
pub open spec fn mk_edge<'a, T: TotalOrd>(c: Cursor<'a, T>) -> DirectedEdge<'a, T, 2> { DirectedEdge { src: &c.pt(), dst: &c.step(1).pt() } }
impl<'a, T: TotalOrd + Clone> Iterator for EdgeIter<'a, T> {
    type Item = DirectedEdge<'a, T, 2>;
//@ fn src/data/polygon/iter.rs | Iterator for EdgeIter<'a, T> | next
//@ top
    proof { use_type_invariant(&self.iter); use_type_invariant(self.iter.cursor_head); use_type_invariant(self.iter.cursor_tail); citer::first(self.iter); citer::fwd(self.iter); }
//@ end
}
// the edges of ring 0, in order
pub open spec fn full_edges<'a, T>(r: EdgeIter<'a, T>, p: &'a Polygon<T>) -> bool {
    r.it().left() == p.rings@[0]@.len() && r.it().head().poly() == p && forall|i: int| 0 <= i < r.it().left() ==> (#[trigger] r.it().seq()[i]).pt() == at(*p, 0, i) && r.it().seq()[i].step(1).pt() == at(*p, 0, wrapi(i + 1, r.it().left()))
}
impl<T> Polygon<T> {
//@ fn src/data/polygon.rs | impl Polygon<T> | point
//@ ret r
//@ spec
    requires idx.0 < self.points@.len()
    ensures *r == self.points@[idx.0 as int]
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | position_to_point_id
//@ ret r
//@ spec
    requires okpos(*self, position)
    ensures r == self.rings@[position.ring_id.0 as int]@[position.position_id.0 as int]
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | cursor
//@ ret r
//@ spec
    requires wf(*self), idx.0 < self.points@.len()
    ensures r.poly() == self, okpos(*self, r.pos()), self.rings@[r.pos().ring_id.0 as int]@[r.pos().position_id.0 as int] == idx, r.pt() == self.points@[idx.0 as int]
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | boundary_slice
//@ ret r
//@ spec
    requires self.rings@.len() >= 1
    ensures r@ == self.rings@[0]@
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | iter_boundary
//@ ret r
//@ spec
    requires wf(*self)
    ensures
        r.left() == self.rings@[0]@.len(), !r.done(), r.head().poly() == self, r.head().pos().ring_id.0 == 0, r.head().pos().position_id.0 == 0, r.head().pos().size == self.rings@[0]@.len(),
        forall|i: int| #![trigger r.seq()[i]] #![trigger at(*self, 0, i)] 0 <= i < r.left() ==> r.seq()[i].pt() == at(*self, 0, i) && r.seq()[i].poly() == self && r.seq()[i].pos() == (Position { ring_id: RingId(0), size: r.left() as usize, position_id: PositionId(i as usize) }),
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | iter_boundary_edges
//@ ret r
//@ spec
    requires wf(*self)
    ensures full_edges(r, self)
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | swap_positions
//@ spec
    requires ix_maps(*old(self)), okpos(*old(self), pa), okpos(*old(self), pb), pa.ring_id == pb.ring_id
    ensures
        ix_maps(*final(self)), final(self).points == old(self).points, final(self).ring_index == old(self).ring_index,
        final(self).rings@.len() == old(self).rings@.len(),
        forall|r: int| 0 <= r < old(self).rings@.len() && r != pa.ring_id.0 ==> #[trigger] final(self).rings@[r]@ == old(self).rings@[r]@,
        final(self).rings@[pa.ring_id.0 as int]@ == old(self).rings@[pa.ring_id.0 as int]@.update(pa.position_id.0 as int, old(self).rings@[pa.ring_id.0 as int]@[pb.position_id.0 as int])
            .update(pb.position_id.0 as int, old(self).rings@[pa.ring_id.0 as int]@[pa.position_id.0 as int]),
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | new_unchecked
//@ ret r
//@ spec
    ensures
        r.points == vertices, r.rings@.len() == 1, r.rings@[0]@.len() == vertices@.len(),
        forall|k: int| 0 <= k < vertices@.len() ==> (#[trigger] r.rings@[0]@[k]).0 == k,
        forall|k: int| 0 <= k < vertices@.len() ==> at(r, 0, k) == #[trigger] vertices@[k],
        ix_maps(r), vertices@.len() >= 1 ==> wf(r),
//@ rewrite? map(PositionId) =>> map(position_ctor)
//@ rewrite? map(PointId) =>> map(point_ctor)
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | vertices_reverse
//@ spec
    requires ix_maps(*old(self)), okpos(*old(self), pt1), okpos(*old(self), pt2), pt1.ring_id == pt2.ring_id, pt1 != pt2
    ensures
        ix_maps(*final(self)), final(self).points == old(self).points, same_rings(*old(self), *final(self), pt1.ring_id.0 as int),
        rev_upto(old(self).rings@[pt1.ring_id.0 as int]@, final(self).rings@[pt1.ring_id.0 as int]@, pt1.position_id.0 as int, span(pt1, pt2), span(pt1, pt2)),
//@ top
    let ghost mut j: int = 0; let ghost len = span(pt1, pt2); let ghost (q1, q2) = (pt1, pt2); let ghost rid = pt1.ring_id.0 as int; let ghost o = *self;
//@ loop 0
    invariant_except_break
        pt1 == stepp(q1, j), pt2 == stepp(q2, -j), 0 <= j, 2 * j + 1 < len, rev_upto(o.rings@[rid]@, self.rings@[rid]@, q1.position_id.0 as int, len, j),
    invariant
        len == span(q1, q2), 2 <= len <= q1.size, okpos(o, q1), okpos(o, q2), q1.ring_id == q2.ring_id, rid == q1.ring_id.0,
        ix_maps(*self), self.points == o.points, same_rings(o, *self, rid),
    ensures rev_upto(o.rings@[rid]@, self.rings@[rid]@, q1.position_id.0 as int, len, len)
    decreases len - j
//@ loop_top 0
    proof { ringp::rev_all(o.rings@[rid]@, self.rings@[rid]@, q1.position_id.0 as int, len, j); }
//@ loop_bottom 0
    proof { j = j + 1; }
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | vertices_join
//@ spec
    requires ix_maps(*old(self)), okpos(*old(self), pt1), okpos(*old(self), pt2), pt1.ring_id == pt2.ring_id, pt1 != pt2
    ensures
        ix_maps(*final(self)), final(self).points == old(self).points, same_rings(*old(self), *final(self), pt1.ring_id.0 as int),
        joined(old(self).rings@[pt1.ring_id.0 as int]@, final(self).rings@[pt1.ring_id.0 as int]@, pt1.position_id.0 as int, span(pt1, pt2) - 1, span(pt1, pt2) - 2),
//@ top
    let ghost mut j: int = 0; let ghost len = span(pt1, pt2) - 1; let ghost (q1, q2) = (pt1, pt2); let ghost rid = pt1.ring_id.0 as int; let ghost o = *self;
//@ loop 0
    invariant
        len == span(q1, q2) - 1, 1 <= len < q1.size, okpos(o, q1), okpos(o, q2), q1.ring_id == q2.ring_id, rid == q1.ring_id.0, pt1 == q1,
        pt2 == stepp(q2, -j), 0 <= j < len,
        joined(o.rings@[rid]@, self.rings@[rid]@, q1.position_id.0 as int, len, j),
        ix_maps(*self), self.points == o.points, same_rings(o, *self, rid),
    decreases len - j
//@ loop_top 0
    proof { ringp::join_all(o.rings@[rid]@, self.rings@[rid]@, q1.position_id.0 as int, len, j); }
//@ loop_bottom 0
    proof { j = j + 1; }
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | orientation
//@ ret r
//@ spec
    requires wf(*self)
    ensures ring_turn(*self, r)
//@ closure 0
    -> (o: Ordering) ensures o == (&a.pt()).tcmp(&b.pt())
//@ top
    proof { ringp::point_order::<T>(); ringp::lowest_turn::<T>(self); }
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | ensure_ccw
//@ ret r
//@ spec
    requires wf(*old(self)), old(self).rings@[0]@.len() >= 2
    ensures
        wf(*final(self)), final(self).points == old(self).points,
        match r {
            Ok(_) => ring_turn(*old(self), Orientation::CounterClockWise) && *final(self) == *old(self)
                  || ring_turn(*old(self), Orientation::ClockWise) && same_rings(*old(self), *final(self), 0) && final(self).rings@[0]@ == old(self).rings@[0]@.reverse(),
            Err(e) => e == Error::CoLinearViolation && ring_turn(*old(self), Orientation::CoLinear) && *final(self) == *old(self),
        }
//@ top
    proof { ringp::full_reverse(self.rings@[0]@); }
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | equals
//@ ret r
//@ spec
    requires wf(*self), wf(*other)
    ensures r == same_ring(*self, *other)
//@ loop 0 iter it
    invariant
        wf(*self), wf(*other), it.seq().len() == self.rings@[0]@.len(), self.rings@[0]@.len() == other.rings@[0]@.len(),
        forall|k: int| 0 <= k < it.index@ ==> !rotated(*self, *other, k),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).poly() == self && it.seq()[i].pos() == (Position { ring_id: RingId(0), size: self.rings@[0]@.len() as usize, position_id: PositionId(i as usize) }),
//@ loop_top 0
    proof { ringp::rotation(self, other, pos); }
//@ end
//@ fn src/data/polygon.rs | impl Polygon<T> | direct
//@ ret r
//@ spec
    requires
        wf(*self), edge.min.0 < self.points@.len(), edge.max.0 < self.points@.len(),
        exists|i: int| 0 <= i < self.rings@[0]@.len() && (#[trigger] ring_side(self.rings@[0]@, i) == (edge.min, edge.max) || ring_side(self.rings@[0]@, i) == (edge.max, edge.min)),
    ensures
        (r.src == edge.min && r.dst == edge.max) || (r.src == edge.max && r.dst == edge.min),
        exists|i: int| 0 <= i < self.rings@[0]@.len() && #[trigger] ring_side(self.rings@[0]@, i) == (r.src, r.dst),
//@ top
    proof {
        let r = self.rings@[0]@;
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] ring_side(r, i) == (edge.min, edge.max) || ring_side(r, i) == (edge.max, edge.min));
        let (a, b) = (self.position_index@[edge.min.0 as int].0 as int, self.position_index@[edge.max.0 as int].0 as int);
        let _ = (r[i], r[wrapi(i + 1, r.len() as int)]);
        let _ = (ring_side(r, a), ring_side(r, b));
    }
//@ end
}
} // verus!
pub mod citer { use super::*; verus! {
// taking the first cursor off
pub proof fn first<'a, T>(it: CursorIter<'a, T>)
    ensures true
{ }
pub proof fn last<'a, T>(it: CursorIter<'a, T>)
    ensures true
{ }
pub proof fn fwd<'a, T>(it: CursorIter<'a, T>)
    ensures true
{ }
} }
pub mod ringp { use super::*; verus! {
pub proof fn lowest_turn<'a, T: PolygonScalar>(p: &'a Polygon<T>)
    requires wf(*p)
    ensures forall|c: Cursor<'a, T>| #![trigger c.step(-1)] c.poly() == p && okpos(*p, c.pos()) && c.pos().ring_id.0 == 0 && (forall|j: int| 0 <= j < p.rings@[0]@.len() ==> plex(pxy(c.pt()), pxy(#[trigger] at(*p, 0, j))) != Ordering::Greater)
        ==> ring_turn(*p, orient3(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt())))
{
    assert forall|c: Cursor<'a, T>| #![trigger c.step(-1)] c.poly() == p && okpos(*p, c.pos()) && c.pos().ring_id.0 == 0 && (forall|j: int| 0 <= j < p.rings@[0]@.len() ==> plex(pxy(c.pt()), pxy(#[trigger] at(*p, 0, j))) != Ordering::Greater)
        implies ring_turn(*p, orient3(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt()))) by {
        let k = c.pos().position_id.0 as int;
        assert(lowest(*p, k));
        assert(orient3(pxy(c.step(-1).pt()), pxy(c.pt()), pxy(c.step(1).pt())) == vturn(*p, 0, k));
    }
}
pub proof fn full_reverse(a: Seq<PointId>)
    ensures forall|b: Seq<PointId>| #[trigger] rev_upto(a, b, 0, a.len() as int, a.len() as int) ==> b == a.reverse()
{
    assert forall|b: Seq<PointId>| #[trigger] rev_upto(a, b, 0, a.len() as int, a.len() as int) implies b == a.reverse() by {
        assert forall|k: int| 0 <= k < b.len() implies b[k] == a.reverse()[k] by { let _ = rix(b, 0, k); }
        assert(b =~= a.reverse());
    }
}
pub proof fn rotation<'a, 'b, T: TotalOrd>(p: &'a Polygon<T>, q: &'b Polygon<T>, c: Cursor<'a, T>)
    requires wf(*p), wf(*q), p.rings@[0]@.len() == q.rings@[0]@.len(), c.poly() == p, okpos(*p, c.pos()), c.pos().ring_id.0 == 0
    ensures
        forall|x: CursorIter<'a, T>, y: CursorIter<'b, T>| #![trigger PartialEqSpec::eq_spec(&x, &y)] x.head() == c && x.tail() == c.step(-1) && !x.done() && y.left() == q.rings@[0]@.len() && (forall|i: int| 0 <= i < y.left() ==> (#[trigger] y.seq()[i]).pt() == at(*q, 0, i))
            ==> PartialEqSpec::eq_spec(&x, &y) == rotated(*p, *q, c.pos().position_id.0 as int),
{
    assert forall|x: CursorIter<'a, T>, y: CursorIter<'b, T>| #![trigger PartialEqSpec::eq_spec(&x, &y)] x.head() == c && x.tail() == c.step(-1) && !x.done() && y.left() == q.rings@[0]@.len() && (forall|i: int| 0 <= i < y.left() ==> (#[trigger] y.seq()[i]).pt() == at(*q, 0, i))
        implies PartialEqSpec::eq_spec(&x, &y) == rotated(*p, *q, c.pos().position_id.0 as int) by {
        let k = c.pos().position_id.0 as int; let n = p.rings@[0]@.len() as int;
        assert(x.left() == n);
        assert forall|i: int| 0 <= i < n implies (#[trigger] x.seq()[i]).pt() == at(*p, 0, wrapi(k + i, n)) by { }
        if PartialEqSpec::eq_spec(&x, &y) {
            assert forall|i: int| 0 <= i < n implies (&at(*p, 0, wrapi(k + i, n))).tcmp(&#[trigger] at(*q, 0, i)) == Ordering::Equal by { let _ = x.seq()[i]; let _ = y.seq()[i]; }
        }
        if rotated(*p, *q, k) {
            assert forall|i: int| 0 <= i < x.left() implies (&(#[trigger] x.seq()[i]).pt()).tcmp(&y.seq()[i].pt()) == Ordering::Equal by { let _ = at(*q, 0, i); }
        }
    }
}
pub proof fn edge_list<'a, T: PolygonScalar>(p: &'a Polygon<T>)
    requires wf(*p)
    ensures
        forall|e: EdgeIter<'a, T>| #![trigger e.remaining()] full_edges(e, p) ==> e.remaining().len() == p.rings@[0]@.len() && (forall|i: int| #![trigger e.remaining()[i]] 0 <= i < e.remaining().len() ==> *e.remaining()[i].src == at(*p, 0, i) && *e.remaining()[i].dst == at(*p, 0, wrapi(i + 1, p.rings@[0]@.len() as int)))
{
    assert forall|e: EdgeIter<'a, T>| #![trigger e.remaining()] full_edges(e, p) implies e.remaining().len() == p.rings@[0]@.len() && (forall|i: int| #![trigger e.remaining()[i]] 0 <= i < e.remaining().len() ==> *e.remaining()[i].src == at(*p, 0, i) && *e.remaining()[i].dst == at(*p, 0, wrapi(i + 1, p.rings@[0]@.len() as int))) by {
        assert forall|i: int| 0 <= i < e.remaining().len() implies *(#[trigger] e.remaining()[i]).src == at(*p, 0, i) && *e.remaining()[i].dst == at(*p, 0, wrapi(i + 1, p.rings@[0]@.len() as int)) by { let _ = e.it().seq()[i]; }
    }
}
pub proof fn point_order<T: PolygonScalar>()
    ensures
        forall|a: Point<T, 2>, b: Point<T, 2>| #[trigger] (&a).tcmp(&b) == plex(pxy(a), pxy(b)),
        forall|a: P2, b: P2| plex(b, a) == orev(#[trigger] plex(a, b)),
        forall|a: P2, b: P2, c: P2| #[trigger] plex(a, b) != Ordering::Greater && #[trigger] plex(b, c) != Ordering::Greater ==> plex(a, c) != Ordering::Greater,
{
    assert forall|a: Point<T, 2>, b: Point<T, 2>| #[trigger] (&a).tcmp(&b) == plex(pxy(a), pxy(b)) by { point_order_2d(a, b); }
}
pub open spec fn swapped(b: Seq<PointId>, x: int, y: int) -> Seq<PointId> { b.update(x, b[y]).update(y, b[x]) }
pub proof fn rev_all(a: Seq<PointId>, b: Seq<PointId>, from: int, len: int, j: int)
    requires rev_upto(a, b, from, len, j), 0 <= from < a.len(), 2 <= len <= a.len(), 0 <= j, 2 * j + 1 < len
    ensures
        forall|c: Seq<PointId>| #![trigger rev_upto(a, c, from, len, j + 1)] #![trigger rev_upto(a, c, from, len, len)] c == swapped(b, wrapi(from + j, a.len() as int), wrapi(from + len - 1 - j, a.len() as int)) ==> rev_upto(a, c, from, len, j + 1) && (2 * (j + 1) + 1 >= len ==> rev_upto(a, c, from, len, len)),
{
    let n = a.len() as int;
    let (x, y) = (wrapi(from + j, n), wrapi(from + len - 1 - j, n));
    let c = swapped(b, x, y);
    assert forall|k: int| 0 <= k < n implies #[trigger] rix(c, from, k) == if k < len && (k < j + 1 || k >= len - (j + 1)) { rix(a, from, len - 1 - k) } else { rix(a, from, k) } by {
        assert(rix(b, from, k) == if k < len && (k < j || k >= len - j) { rix(a, from, len - 1 - k) } else { rix(a, from, k) });
        let _ = rix(b, from, j); let _ = rix(b, from, len - 1 - j);
        if k == j { } else if k == len - 1 - j { } else { assert(wrapi(from + k, n) != x && wrapi(from + k, n) != y); }
    }
    if 2 * (j + 1) + 1 >= len {
        assert forall|k: int| 0 <= k < n implies #[trigger] rix(c, from, k) == if k < len { rix(a, from, len - 1 - k) } else { rix(a, from, k) } by { }
    }
}
pub proof fn join_all(a: Seq<PointId>, b: Seq<PointId>, from: int, len: int, j: int)
    requires joined(a, b, from, len, j), 0 <= from < a.len(), 1 <= len < a.len(), 0 <= j < len - 1
    ensures
        forall|c: Seq<PointId>| c == swapped(b, wrapi(from + len - j - 1, a.len() as int), wrapi(from + len - j, a.len() as int)) ==> #[trigger] joined(a, c, from, len, j + 1),
{
    let n = a.len() as int;
    let (x, y) = (wrapi(from + len - j - 1, n), wrapi(from + len - j, n));
    let c = swapped(b, x, y);
    assert forall|k: int| 0 <= k < n implies #[trigger] rix(c, from, k) == if k == len - (j + 1) { rix(a, from, len) } else if len - (j + 1) < k <= len { rix(a, from, k - 1) } else { rix(a, from, k) } by {
        let _ = rix(b, from, k); let _ = rix(b, from, len - j - 1); let _ = rix(b, from, len - j);
        if k == len - j - 1 { } else if k == len - j { } else { assert(wrapi(from + k, n) != x && wrapi(from + k, n) != y); }
    }
}
} }
