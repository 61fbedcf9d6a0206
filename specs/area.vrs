// Exact number types F a value can be converted to: num-traits' NumOps and Into, restricted to types whose
// operators are exact (fixed-width and floating types round or overflow: outside this contract).
verus! {
pub uninterp spec fn nv<F>(f: F) -> real;
pub trait NumOps<Rhs = Self, Output = Self>: Sized + Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + Mul<Rhs, Output = Output> + Div<Rhs, Output = Output> {}
pub open spec fn exact_num<F: NumOps<F, F> + Clone>() -> bool {
    exact_ops::<F>() && forall|a: F, b: F| #[trigger] call_ensures(F::clone, (&a,), b) ==> nv(a) == nv(b)
}
pub open spec fn exact_ops<F: NumOps<F, F>>() -> bool {
    &&& <F as AddSpec>::obeys_add_spec() && <F as SubSpec>::obeys_sub_spec() && <F as MulSpec>::obeys_mul_spec() && <F as DivSpec>::obeys_div_spec()
    &&& forall|a: F, b: F| #![trigger a.add_spec(b)] a.add_req(b) && nv(a.add_spec(b)) == nv(a) + nv(b)
    &&& forall|a: F, b: F| #![trigger a.add_req(b)] a.add_req(b)
    &&& forall|a: F, b: F| #![trigger a.sub_spec(b)] a.sub_req(b) && nv(a.sub_spec(b)) == nv(a) - nv(b)
    &&& forall|a: F, b: F| #![trigger a.sub_req(b)] a.sub_req(b)
    &&& forall|a: F, b: F| #![trigger a.mul_spec(b)] a.mul_req(b) && nv(a.mul_spec(b)) == nv(a) * nv(b)
    &&& forall|a: F, b: F| #![trigger a.mul_req(b)] a.mul_req(b)
    &&& forall|a: F, b: F| #![trigger a.div_spec(b)] nv(b) != 0real ==> nv(a.div_spec(b)) == nv(a) / nv(b)
    &&& forall|a: F, b: F| #![trigger a.div_req(b)] a.div_req(b) == (nv(b) != 0real)
}
pub trait FromPrimitive: Sized { fn from_usize(n: usize) -> (r: Option<Self>); }
pub open spec fn exact_from<F: FromPrimitive>() -> bool {
    &&& forall|n: usize| #[trigger] call_requires(F::from_usize, (n,))
    &&& forall|n: usize, r: Option<F>| #[trigger] call_ensures(F::from_usize, (n,), r) ==> r.is_some() && nv(r->0) == n as real
}
pub open spec fn exact_into<T: PolygonScalar + Into<F>, F>() -> bool {
    &&& forall|t: T| #[trigger] call_requires(<T as Into<F>>::into, (t,))
    &&& forall|t: T, f: F| #[trigger] call_ensures(<T as Into<F>>::into, (t,), f) ==> nv(f) == t.v()
    &&& forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a.v() == b.v()
}
impl<'a, T> TriangleView<'a, T> where T: PolygonScalar {
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | signed_area
//@ ret r
//@ spec
    requires exact_num::<F>(), exact_into::<T, F>(), exact_from::<F>()
    ensures nv(r) == cross3(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2])) / 2real
//@ end
//@ fn src/data/triangle.rs | impl TriangleView<'a, T> | signed_area_2x
//@ ret r
//@ spec
    requires exact_num::<F>(), exact_into::<T, F>()
    ensures nv(r) == cross3(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2]))
//@ top
    proof { cross3_expand(pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2])); 
      let (a, b, c) = (pxy(*self.0[0]), pxy(*self.0[1]), pxy(*self.0[2]));
      rmc(a.0, b.1); rmc(a.1, b.0); rmc(b.0, c.1); rmc(b.1, c.0); rmc(c.0, a.1); rmc(c.1, a.0); 
    }
//@ end
}
} // verus!
