// Names of vertices and undirected edges between them.
verus! {
//@ item src/data/polygon.rs | PointId | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
impl PointId {
//@ fn src/data/polygon.rs | impl PointId | usize
//@ ret r
//@ spec
    ensures r == self.0
//@ end
}
// the orderings the crate derives: by fields, in order of declaration
impl PartialOrdSpecImpl for PointId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(icmp(self.0 as int, other.0 as int)) }
}
impl PartialOrd for PointId { #[verifier::external_body] fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for PointId {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { icmp(self.0 as int, other.0 as int) }
}
impl Ord for PointId { #[verifier::external_body] fn cmp(&self, other: &Self) -> Ordering { unimplemented!() } }
//@ item src/data/polygon.rs | IndexEdge | fields=pub | attr=#[derive(Copy, Clone, PartialEq, Eq, Structural)]
impl IndexEdge {
//@ fn src/data/polygon.rs | impl IndexEdge | new
//@ ret r
//@ spec
    ensures
        a.0 <= b.0 ==> r.min == a && r.max == b, b.0 <= a.0 ==> r.min == b && r.max == a
//@ end
}
} // verus!
