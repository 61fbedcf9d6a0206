// Affine maps: matrices, translation, scaling, composition, application.
verus! {
pub uninterp spec fn nv<F>(f: F) -> real;
pub trait Zero: Sized + Add<Self, Output = Self> { fn zero() -> Self; }
pub trait One: Sized + Mul<Self, Output = Self> { fn one() -> Self; }
pub trait MatrixMul: Clone + Zero + AddAssign + Mul<Self, Output = Self> {}
pub trait TransformScalar: One + Zero + Div<Output = Self> + MatrixMul {}
// number types whose + and * are exact
pub open spec fn mexact<T: Clone + Zero + AddAssign + Mul<T, Output = T>>() -> bool {
    &&& forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> nv(a) == nv(b)
    &&& call_requires(T::zero, ()) && forall|r: T| #[trigger] call_ensures(T::zero, (), r) ==> nv(r) == 0real
    &&& <T as MulSpec>::obeys_mul_spec() && <T as AddAssignSpec>::obeys_add_assign_spec()
    &&& forall|a: T, b: T| #[trigger] a.mul_req(b)
    &&& forall|a: T, b: T| nv(#[trigger] a.mul_spec(b)) == nv(a) * nv(b)
    &&& forall|a: T, b: T| #[trigger] a.add_assign_req(b)
    &&& forall|a: T, b: T| nv(*#[trigger] a.add_assign_spec(b)) == nv(a) + nv(b)
}
// ... and for which one() is 1 and division by 1 is exact
pub open spec fn texact<T: TransformScalar>() -> bool {
    &&& mexact::<T>() && call_requires(T::one, ()) && forall|r: T| #[trigger] call_ensures(T::one, (), r) ==> nv(r) == 1real
    &&& <T as DivSpec>::obeys_div_spec()
    &&& forall|a: T, b: T| nv(b) == 1real ==> #[trigger] a.div_req(b)
    &&& forall|a: T, b: T| nv(b) == 1real ==> nv(#[trigger] a.div_spec(b)) == nv(a)
}
//@ item src/matrix.rs | Matrix | fields=pub
pub open spec fn slot(i: int, j: int, c: int) -> int { i + j * c }
impl<T> Matrix<T> {
    pub open spec fn ok(&self) -> bool { self.elements@.len() == self.nrows * self.ncols && (self.nrows == self.ncols || self.ncols == 1) }
    pub open spec fn ent(&self, i: int, j: int) -> real { nv(self.elements@[slot(i, j, self.ncols as int)]) }
}
// row i of a times column j of b, first k terms
pub open spec fn mdot<T>(a: Matrix<T>, b: Matrix<T>, i: int, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { mdot(a, b, i, j, k - 1) + a.ent(i, k - 1) * b.ent(k - 1, j) } }
// row i of a times the vector x, first k terms
pub open spec fn lin<T>(a: Matrix<T>, x: spec_fn(int) -> real, i: int, k: int) -> real decreases k { if k <= 0 { 0real } else { lin(a, x, i, k - 1) + a.ent(i, k - 1) * x(k - 1) } }
}
mod matp { #[allow(unused_imports)] use super::*;
verus! {
pub proof fn slots(n: int, c: int)
    requires n >= 0, n == c || c == 1
    ensures forall|i: int, j: int| 0 <= i < n && 0 <= j < c ==> 0 <= #[trigger] slot(i, j, c) < n * c
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < c implies 0 <= #[trigger] slot(i, j, c) < n * c by {
        if c != 1 { assert(0 <= j * c <= (n - 1) * c) by (nonlinear_arith) requires 0 <= j <= n - 1, c >= 0; assert((n - 1) * c == n * c - c) by (nonlinear_arith); }
        else { assert(j * c == 0 && n * c == n) by (nonlinear_arith) requires j == 0, c == 1; }
    }
}
pub proof fn inj(n: int, c: int, i: int, j: int, k: int, l: int)
    requires n == c || c == 1, 0 <= i < n, 0 <= k < n, 0 <= j < c, 0 <= l < c, slot(i, j, c) == slot(k, l, c)
    ensures i == k && j == l
{
    if c != 1 {
        assert(i - k == (l - j) * c) by (nonlinear_arith) requires i + j * c == k + l * c;
        if l > j { assert((l - j) * c >= c) by (nonlinear_arith) requires l - j >= 1, c >= 0; }
        if l < j { assert((l - j) * c <= -c) by (nonlinear_arith) requires l - j <= -1, c >= 0; }
    }
}
pub proof fn set<T>(a: Matrix<T>, b: Matrix<T>, i: int, j: int)
    requires a.ok(), b.nrows == a.nrows, b.ncols == a.ncols, 0 <= i < a.nrows, 0 <= j < a.ncols, exists|x: T| b.elements@ == #[trigger] a.elements@.update(slot(i, j, a.ncols as int), x)
    ensures b.ok(), forall|k: int, l: int| 0 <= k < a.nrows && 0 <= l < a.ncols && (k != i || l != j) ==> #[trigger] b.ent(k, l) == a.ent(k, l)
{
    slots(a.nrows as int, a.ncols as int);
    assert forall|k: int, l: int| 0 <= k < a.nrows && 0 <= l < a.ncols && (k != i || l != j) implies #[trigger] b.ent(k, l) == a.ent(k, l) by {
        if slot(i, j, a.ncols as int) == slot(k, l, a.ncols as int) { inj(a.nrows as int, a.ncols as int, i, j, k, l); }
    }
}
} }
verus! {
impl<T> Matrix<T> {
//@ fn src/matrix.rs | impl Matrix<T> | new
//@ ret r
//@ spec
    requires nrows * ncols <= usize::MAX, call_requires(T::zero, ())
    ensures r.nrows == nrows, r.ncols == ncols, r.elements@.len() == nrows * ncols, forall|k: int| 0 <= k < r.elements@.len() ==> call_ensures(T::zero, (), #[trigger] r.elements@[k])
//@ loop 0 iter it
    invariant
        call_requires(T::zero, ()), vec@.len() == it.index@, forall|k: int| 0 <= k < vec@.len() ==> call_ensures(T::zero, (), #[trigger] vec@[k])
//@ end
//@ fn src/matrix.rs | impl Matrix<T> | validate
//@ spec
    requires self.elements@.len() == self.nrows * self.ncols
//@ end
//@ fn src/matrix.rs | impl Matrix<T> | nrows
//@ ret r
//@ spec
    ensures r == self.nrows
//@ end
//@ fn src/matrix.rs | impl Matrix<T> | ncols
//@ ret r
//@ spec
    ensures r == self.ncols
//@ end
}
impl<T> IndexSpecImpl<(usize, usize)> for Matrix<T> { open spec fn index_req(&self, key: &(usize, usize)) -> bool { self.ok() && key.0 < self.nrows && key.1 < self.ncols } }
impl<T> Index<(usize, usize)> for Matrix<T> {
    type Output = T;
//@ fn src/matrix.rs | Index<(usize, usize)> for Matrix<T> | index
//@ ret r
//@ spec
    ensures *r == self.elements@[slot(key.0 as int, key.1 as int, self.ncols as int)]
//@ top
    proof { matp::slots(self.nrows as int, self.ncols as int); assert(0 <= slot(key.0 as int, key.1 as int, self.ncols as int) < self.elements.len()); assert(key.1 * self.ncols >= 0) by (nonlinear_arith); }
//@ end
}
impl<T> IndexMut<(usize, usize)> for Matrix<T> {
//@ fn src/matrix.rs | IndexMut<(usize, usize)> for Matrix<T> | index_mut
//@ ret r
//@ spec
    ensures *r == old(self).elements@[slot(key.0 as int, key.1 as int, old(self).ncols as int)], final(self).nrows == old(self).nrows, final(self).ncols == old(self).ncols,
        final(self).elements@ == old(self).elements@.update(slot(key.0 as int, key.1 as int, old(self).ncols as int), *final(r))
//@ top
    proof { matp::slots(self.nrows as int, self.ncols as int); assert(0 <= slot(key.0 as int, key.1 as int, self.ncols as int) < self.elements.len()); assert(key.1 * self.ncols >= 0) by (nonlinear_arith); }
//@ end
}
pub open spec fn mul_ok<T: Clone + Zero + AddAssign + Mul<T, Output = T>>(a: Matrix<T>, b: Matrix<T>) -> bool { mexact::<T>() && a.ok() && b.ok() && a.nrows == a.ncols && a.ncols == b.nrows }
pub open spec fn product<T: Clone + Zero + AddAssign + Mul<T, Output = T>>(a: Matrix<T>, b: Matrix<T>, r: Matrix<T>) -> bool {
    r.ok() && r.nrows == a.nrows && r.ncols == b.ncols && forall|i: int, j: int| 0 <= i < r.nrows && 0 <= j < r.ncols ==> #[trigger] r.ent(i, j) == mdot(a, b, i, j, a.ncols as int)
}
// products
impl<'a, 'b, T> MulSpecImpl<&'a Matrix<T>> for &'b Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Matrix<T>) -> bool { mul_ok(*self, *other) }
    open spec fn mul_spec(self, other: &'a Matrix<T>) -> Matrix<T> { arbitrary() }
}
impl<'a, 'b, T> Mul<&'a Matrix<T>> for &'b Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    type Output = Matrix<T>;
//@ fn src/matrix.rs | Mul<&Matrix<T>> for &Matrix<T> | mul
//@ ret r
//@ rewrite other: &Matrix<T> =>> other: &'a Matrix<T>
//@ spec
    ensures product(*self, *other, r)
//@ loop 0
    invariant
        mul_ok(*self, *other), n == self.nrows, m == self.ncols, p == other.ncols, out.nrows == n, out.ncols == p, out.ok(),
        forall|a: int, b: int| 0 <= a < n && 0 <= b < p ==> #[trigger] out.ent(a, b) == if a < i { mdot(*self, *other, a, b, m as int) } else { 0real },
//@ loop 1
    invariant
        mul_ok(*self, *other), n == self.nrows, m == self.ncols, p == other.ncols, out.nrows == n, out.ncols == p, out.ok(), i < n,
        forall|a: int, b: int| 0 <= a < n && 0 <= b < p ==> #[trigger] out.ent(a, b) == if a < i || a == i && b < j { mdot(*self, *other, a, b, m as int) } else { 0real },
//@ loop 2
    invariant
        mul_ok(*self, *other), n == self.nrows, m == self.ncols, p == other.ncols, out.nrows == n, out.ncols == p, out.ok(), i < n, j < p,
        forall|a: int, b: int| 0 <= a < n && 0 <= b < p && (a != i || b != j) ==> #[trigger] out.ent(a, b) == if a < i || a == i && b < j { mdot(*self, *other, a, b, m as int) } else { 0real },
        out.ent(i as int, j as int) == mdot(*self, *other, i as int, j as int, k as int),
//@ loop_top 2
    let ghost old_out = out;
    proof { matp::slots(n as int, p as int); assert(0 <= slot(i as int, j as int, p as int) < n * p); }
//@ loop_bottom 2
    proof { matp::set(old_out, out, i as int, j as int); }
//@ top
    proof { matp::slots(self.nrows as int, other.ncols as int); assert(self.nrows * other.ncols == other.elements.len()); }
//@ before for i in
    proof { matp::slots(n as int, p as int); }
//@ end
}
impl<'b, T> MulSpecImpl<Matrix<T>> for &'b Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Matrix<T>) -> bool { mul_ok(*self, other) }
    open spec fn mul_spec(self, other: Matrix<T>) -> Matrix<T> { arbitrary() }
}
impl<'b, T> Mul<Matrix<T>> for &'b Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    type Output = Matrix<T>;
//@ fn src/matrix.rs | Mul<Matrix<T>> for &Matrix<T> | mul
//@ ret r
//@ spec
    ensures product(*self, other, r)
//@ end
}
impl<'a, T> MulSpecImpl<&'a Matrix<T>> for Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Matrix<T>) -> bool { mul_ok(self, *other) }
    open spec fn mul_spec(self, other: &'a Matrix<T>) -> Matrix<T> { arbitrary() }
}
impl<'a, T> Mul<&'a Matrix<T>> for Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    type Output = Matrix<T>;
//@ fn src/matrix.rs | Mul<&Matrix<T>> for Matrix<T> | mul
//@ ret r
//@ rewrite other: &Matrix<T> =>> other: &'a Matrix<T>
//@ spec
    ensures product(self, *other, r)
//@ end
}
impl<T> MulSpecImpl<Matrix<T>> for Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Matrix<T>) -> bool { mul_ok(self, other) }
    open spec fn mul_spec(self, other: Matrix<T>) -> Matrix<T> { arbitrary() }
}
impl<T> Mul<Matrix<T>> for Matrix<T> where T: Clone + Zero + AddAssign + Mul<T, Output = T> {
    type Output = Matrix<T>;
//@ fn src/matrix.rs | Mul<Matrix<T>> for Matrix<T> | mul
//@ ret r
//@ rewrite? &self * &other =>> (&self).mul(&other)
//@ spec
    ensures product(self, other, r)
//@ end
}
// affine maps
//@ item src/transformation.rs | Transform | fields=pub
impl<T, const N: usize> Transform<T, N> {
    pub open spec fn aff(&self) -> bool {
        &&& self.0.ok() && self.0.nrows == N + 1 && self.0.ncols == N + 1
        &&& forall|j: int| 0 <= j < N ==> #[trigger] self.0.ent(N as int, j) == 0real
        &&& self.0.ent(N as int, N as int) == 1real
    }
    // component i of the image of x
    pub open spec fn ap(&self, x: spec_fn(int) -> real, i: int) -> real { lin(self.0, x, i, N as int) + self.0.ent(i, N as int) }
}
pub open spec fn comps<T>(s: Seq<T>) -> spec_fn(int) -> real { |k: int| nv(s[k]) }
}
mod affp { #[allow(unused_imports)] use super::*;
verus! {
pub proof fn square(n: int) ensures (n + 1) * (n + 1) == n * n + 2 * n + 1 { assert((n + 1) * (n + 1) == n * n + 2 * n + 1) by (nonlinear_arith); }
// a diagonal row picks its component
pub proof fn diag<T>(a: Matrix<T>, x: spec_fn(int) -> real, i: int, d: real, k: int)
    requires 0 <= i, 0 <= k, forall|j: int| 0 <= j < k ==> #[trigger] a.ent(i, j) == if j == i { d } else { 0real }
    ensures lin(a, x, i, k) == if i < k { d * x(i) } else { 0real }
    decreases k
{
    if k > 0 {
        diag(a, x, i, d, k - 1);
        assert(0real * x(k - 1) == 0real) by (nonlinear_arith);
    }
}
// (a * b) x = a (b x), row i, where mid[l] is row l of b applied to x
pub proof fn assoc<T>(a: Matrix<T>, b: Matrix<T>, c: Matrix<T>, x: spec_fn(int) -> real, y: spec_fn(int) -> real, i: int, m: int, k: int)
    requires k >= 0, m >= 0, forall|j: int| 0 <= j < k ==> #[trigger] c.ent(i, j) == mdot(a, b, i, j, m), forall|l: int| 0 <= l < m ==> #[trigger] y(l) == lin(b, x, l, k)
    ensures lin(c, x, i, k) == lin(a, y, i, m)
    decreases k
{
    if k == 0 {
        zero(a, y, i, m);
    } else {
        let z = |l: int| lin(b, x, l, k - 1);
        assoc(a, b, c, x, z, i, m, k - 1);
        assert(c.ent(i, k - 1) == mdot(a, b, i, k - 1, m));
        split(a, b, x, y, z, i, m, k);
    }
}
pub proof fn zero<T>(a: Matrix<T>, y: spec_fn(int) -> real, i: int, m: int)
    requires m >= 0, forall|l: int| 0 <= l < m ==> #[trigger] y(l) == 0real
    ensures lin(a, y, i, m) == 0real
    decreases m
{
    if m > 0 { zero(a, y, i, m - 1); assert(y(m - 1) == 0real); assert(a.ent(i, m - 1) * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn split<T>(a: Matrix<T>, b: Matrix<T>, x: spec_fn(int) -> real, y: spec_fn(int) -> real, z: spec_fn(int) -> real, i: int, m: int, k: int)
    requires k >= 1, m >= 0, forall|l: int| 0 <= l < m ==> #[trigger] y(l) == z(l) + b.ent(l, k - 1) * x(k - 1)
    ensures lin(a, y, i, m) == lin(a, z, i, m) + mdot(a, b, i, k - 1, m) * x(k - 1)
    decreases m
{
    if m > 0 {
        split(a, b, x, y, z, i, m - 1, k);
        let (p, q, r, s, t) = (a.ent(i, m - 1), z(m - 1), b.ent(m - 1, k - 1), x(k - 1), mdot(a, b, i, k - 1, m - 1));
        assert(y(m - 1) == q + r * s);
        assert(p * (q + r * s) == p * q + (p * r) * s) by (nonlinear_arith);
        assert((t + p * r) * s == t * s + (p * r) * s) by (nonlinear_arith);
    } else {
        assert(0real * x(k - 1) == 0real) by (nonlinear_arith);
    }
}
pub proof fn same<T>(a: Matrix<T>, y: spec_fn(int) -> real, z: spec_fn(int) -> real, i: int, m: int)
    requires m >= 0, forall|l: int| 0 <= l < m ==> #[trigger] y(l) == z(l)
    ensures lin(a, y, i, m) == lin(a, z, i, m)
    decreases m
{ if m > 0 { same(a, y, z, i, m - 1); assert(y(m - 1) == z(m - 1)); } }
// the row (0, .., 0, e) of a product
pub proof fn last<T>(a: Matrix<T>, b: Matrix<T>, i: int, j: int, n: int)
    requires n >= 0, forall|l: int| 0 <= l < n ==> #[trigger] a.ent(i, l) == 0real
    ensures mdot(a, b, i, j, n) == 0real
    decreases n
{ if n > 0 { last(a, b, i, j, n - 1); assert(a.ent(i, n - 1) == 0real); assert(0real * b.ent(n - 1, j) == 0real) by (nonlinear_arith); } }
// a column of a product as a lin
pub proof fn col<T>(a: Matrix<T>, b: Matrix<T>, x: spec_fn(int) -> real, i: int, j: int, n: int)
    requires n >= 0, forall|l: int| 0 <= l < n ==> #[trigger] b.ent(l, j) == x(l)
    ensures mdot(a, b, i, j, n) == lin(a, x, i, n)
    decreases n
{ if n > 0 { col(a, b, x, i, j, n - 1); assert(b.ent(n - 1, j) == x(n - 1)); } }
// composition of affine maps
pub proof fn compose<T: Clone + Zero + AddAssign + Mul<T, Output = T>, const N: usize>(a: Transform<T, N>, b: Transform<T, N>, c: Transform<T, N>)
    requires a.aff(), b.aff(), product(a.0, b.0, c.0)
    ensures c.aff(), forall|x: spec_fn(int) -> real, i: int| 0 <= i < N ==> #[trigger] c.ap(x, i) == a.ap(|k: int| b.ap(x, k), i)
{
    let n = N as int;
    assert forall|j: int| 0 <= j <= n implies #[trigger] c.0.ent(n, j) == b.0.ent(n, j) by {
        last(a.0, b.0, n, j, n);
        assert(mdot(a.0, b.0, n, j, n + 1) == mdot(a.0, b.0, n, j, n) + a.0.ent(n, n) * b.0.ent(n, j));
        assert(1real * b.0.ent(n, j) == b.0.ent(n, j)) by (nonlinear_arith);
    }
    assert forall|x: spec_fn(int) -> real, i: int| 0 <= i < n implies #[trigger] c.ap(x, i) == a.ap(|k: int| b.ap(x, k), i) by {
        // extend x by a last component 1: then ap is lin over n + 1 columns
        let e = |k: int| if k == n { 1real } else { x(k) };
        let y = |l: int| lin(b.0, e, l, n + 1);
        assoc(a.0, b.0, c.0, e, y, i, n + 1, n + 1);
        same(c.0, e, x, i, n);
        assert(c.0.ent(i, n) * 1real == c.0.ent(i, n)) by (nonlinear_arith);
        assert(lin(c.0, e, i, n + 1) == c.ap(x, i));
        let w = |k: int| b.ap(x, k);
        assert forall|l: int| 0 <= l < n implies #[trigger] y(l) == w(l) by { same(b.0, e, x, l, n); assert(b.0.ent(l, n) * 1real == b.0.ent(l, n)) by (nonlinear_arith); }
        same(a.0, y, w, i, n);
        assert(y(n) == 1real) by {
            same(b.0, e, x, n, n);
            zero_row(b.0, x, n, n);
            assert(b.0.ent(n, n) * e(n) == 1real) by (nonlinear_arith) requires b.0.ent(n, n) == 1real, e(n) == 1real;
        }
        assert(a.0.ent(i, n) * 1real == a.0.ent(i, n)) by (nonlinear_arith);
    }
}
pub proof fn zero_row<T>(a: Matrix<T>, x: spec_fn(int) -> real, i: int, m: int)
    requires m >= 0, forall|l: int| 0 <= l < m ==> #[trigger] a.ent(i, l) == 0real
    ensures lin(a, x, i, m) == 0real
    decreases m
{ if m > 0 { zero_row(a, x, i, m - 1); assert(0real * x(m - 1) == 0real) by (nonlinear_arith); } }
} }
verus! {
impl<T, const N: usize> Transform<T, N> where T: TransformScalar {
//@ fn src/transformation.rs | impl Transform<T, N> | new
//@ ret r
//@ spec
    requires m.ncols == N + 1, m.nrows == N + 1
    ensures r.0 == m
//@ end
//@ fn src/transformation.rs | impl Transform<T, N> | translate
//@ ret r
//@ spec
    requires texact::<T>(), (N + 1) * (N + 1) <= usize::MAX
    ensures r.aff(), forall|x: spec_fn(int) -> real, i: int| 0 <= i < N ==> #[trigger] r.ap(x, i) == x(i) + nv(vec.0@[i])
//@ top
    proof { affp::square(N as int); matp::slots(N + 1, N + 1); }
//@ loop 0
    invariant
        texact::<T>(), m.ok(), m.nrows == N + 1, m.ncols == N + 1,
        forall|a: int, b: int| 0 <= a <= N && 0 <= b <= N ==> #[trigger] m.ent(a, b) == if a < i && a == b { 1real } else if a < i && b == N { nv(vec.0@[a]) } else { 0real },
//@ loop_top 0
    let ghost m0 = m;
    proof { matp::slots(N + 1, N + 1); assert(0 <= slot(i as int, i as int, N + 1) < (N + 1) * (N + 1)); assert(0 <= slot(i as int, N as int, N + 1) < (N + 1) * (N + 1)); }
//@ after_stmt m[(i, i)] = T::one();
    let ghost m1 = m;
    proof { matp::set(m0, m1, i as int, i as int); }
//@ loop_bottom 0
    proof { matp::set(m1, m, i as int, N as int); }
//@ before m[(N, N)] =
    let ghost m2 = m;
    proof { matp::slots(N + 1, N + 1); assert(0 <= slot(N as int, N as int, N + 1) < (N + 1) * (N + 1)); }
//@ tail res
    proof {
        matp::set(m2, res.0, N as int, N as int);
        assert forall|x: spec_fn(int) -> real, i: int| 0 <= i < N implies #[trigger] res.ap(x, i) == x(i) + nv(vec.0@[i]) by {
            affp::diag(res.0, x, i, 1real, N as int); assert(1real * x(i) == x(i)) by (nonlinear_arith);
        }
    }
//@ end
//@ fn src/transformation.rs | impl Transform<T, N> | scale
//@ ret r
//@ spec
    requires texact::<T>(), (N + 1) * (N + 1) <= usize::MAX
    ensures r.aff(), forall|x: spec_fn(int) -> real, i: int| 0 <= i < N ==> #[trigger] r.ap(x, i) == nv(vec.0@[i]) * x(i)
//@ top
    proof { affp::square(N as int); matp::slots(N + 1, N + 1); }
//@ loop 0
    invariant
        texact::<T>(), m.ok(), m.nrows == N + 1, m.ncols == N + 1,
        forall|a: int, b: int| 0 <= a <= N && 0 <= b <= N ==> #[trigger] m.ent(a, b) == if a < i && a == b { nv(vec.0@[a]) } else { 0real },
//@ loop_top 0
    let ghost m0 = m;
    proof { matp::slots(N + 1, N + 1); assert(0 <= slot(i as int, i as int, N + 1) < (N + 1) * (N + 1)); }
//@ loop_bottom 0
    proof { matp::set(m0, m, i as int, i as int); }
//@ before m[(N, N)] =
    let ghost m2 = m;
    proof { matp::slots(N + 1, N + 1); assert(0 <= slot(N as int, N as int, N + 1) < (N + 1) * (N + 1)); }
//@ tail res
    proof {
        matp::set(m2, res.0, N as int, N as int);
        assert forall|x: spec_fn(int) -> real, i: int| 0 <= i < N implies #[trigger] res.ap(x, i) == nv(vec.0@[i]) * x(i) by { affp::diag(res.0, x, i, nv(vec.0@[i]), N as int); }
    }
//@ end
//@ fn src/transformation.rs | impl Transform<T, N> | uniform_scale
//@ ret r
//@ spec
    requires texact::<T>(), (N + 1) * (N + 1) <= usize::MAX
    ensures r.aff(), forall|x: spec_fn(int) -> real, i: int| 0 <= i < N ==> #[trigger] r.ap(x, i) == nv(v) * x(i)
//@ top
    proof { affp::square(N as int); matp::slots(N + 1, N + 1); }
//@ loop 0
    invariant
        texact::<T>(), m.ok(), m.nrows == N + 1, m.ncols == N + 1,
        forall|a: int, b: int| 0 <= a <= N && 0 <= b <= N ==> #[trigger] m.ent(a, b) == if a < i && a == b { nv(v) } else { 0real },
//@ loop_top 0
    let ghost m0 = m;
    proof { matp::slots(N + 1, N + 1); assert(0 <= slot(i as int, i as int, N + 1) < (N + 1) * (N + 1)); }
//@ loop_bottom 0
    proof { matp::set(m0, m, i as int, i as int); }
//@ before m[(N, N)] =
    let ghost m2 = m;
    proof { matp::slots(N + 1, N + 1); assert(0 <= slot(N as int, N as int, N + 1) < (N + 1) * (N + 1)); }
//@ tail res
    proof {
        matp::set(m2, res.0, N as int, N as int);
        assert forall|x: spec_fn(int) -> real, i: int| 0 <= i < N implies #[trigger] res.ap(x, i) == nv(v) * x(i) by { affp::diag(res.0, x, i, nv(v), N as int); }
    }
//@ end
}
// derived: every component is cloned
impl<T: Clone, const N: usize> Clone for Point<T, N> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures forall|i: int| 0 <= i < N ==> call_ensures(T::clone, (&self.array@[i],), #[trigger] r.array@[i]) { unimplemented!() }
}
impl<T, const N: usize> MulSpecImpl<Transform<T, N>> for Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Transform<T, N>) -> bool { texact::<T>() && (self).aff() && (other).aff() }
    open spec fn mul_spec(self, other: Transform<T, N>) -> Transform<T, N> { arbitrary() }
}
impl<T, const N: usize> Mul<Transform<T, N>> for Transform<T, N> where T: TransformScalar {
    type Output = Transform<T, N>;
//@ fn src/transformation.rs | Mul for Transform<T, N> | mul
//@ ret r
//@ spec
    ensures r.aff(), forall|x: spec_fn(int) -> real, i: int| 0 <= i < N ==> #[trigger] r.ap(x, i) == (self).ap(|k: int| (other).ap(x, k), i)
//@ tail res
    proof { affp::compose(self, other, res); }
//@ end
}
impl<'a, 'b, T, const N: usize> MulSpecImpl<&'a Transform<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Transform<T, N>) -> bool { texact::<T>() && (*self).aff() && (*other).aff() }
    open spec fn mul_spec(self, other: &'a Transform<T, N>) -> Transform<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Mul<&'a Transform<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    type Output = Transform<T, N>;
//@ fn src/transformation.rs | Mul<&Transform<T, N>> for &Transform<T, N> | mul
//@ ret r
//@ rewrite other: &Transform<T, N> =>> other: &'a Transform<T, N>
//@ spec
    ensures r.aff(), forall|x: spec_fn(int) -> real, i: int| 0 <= i < N ==> #[trigger] r.ap(x, i) == (*self).ap(|k: int| (*other).ap(x, k), i)
//@ tail res
    proof { affp::compose(*self, *other, res); }
//@ end
}
impl<'a, 'b, T, const N: usize> MulSpecImpl<&'a Vector<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Vector<T, N>) -> bool { texact::<T>() && (*self).aff() }
    open spec fn mul_spec(self, other: &'a Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Mul<&'a Vector<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    type Output = Vector<T, N>;
//@ fn src/transformation.rs | Mul<&Vector<T, N>> for &Transform<T, N> | mul
//@ ret r
//@ rewrite other: &Vector<T, N> =>> other: &'a Vector<T, N>
//@ spec
    ensures forall|i: int| 0 <= i < N ==> nv(#[trigger] r.0@[i]) == (*self).ap(comps((*other).0@), i)
//@ top
    proof { affp::square(N as int); matp::slots(N + 1, 1); matp::slots(N + 1, N + 1); }
//@ loop 0
    invariant
        texact::<T>(), v.ok(), v.nrows == N + 1, v.ncols == 1,
        forall|a: int| 0 <= a < i ==> #[trigger] v.ent(a, 0) == nv(other.0@[a]),
//@ loop_top 0
    let ghost v0 = v;
    proof { matp::slots(N + 1, 1); assert(0 <= slot(i as int, 0, 1) < (N + 1) * 1); }
//@ loop_bottom 0
    proof { matp::set(v0, v, i as int, 0); }
//@ before v[(N, 0)] =
    let ghost v1 = v;
    proof { matp::slots(N + 1, 1); assert(0 <= slot(N as int, 0, 1) < (N + 1) * 1); }
//@ before let ret =
    let ghost v2 = v;
    proof { matp::set(v1, v, N as int, 0); }
//@ before let normalizer =
    proof {
        let x = comps(other.0@);
        assert forall|i: int| 0 <= i < N implies #[trigger] ret.ent(i, 0) == self.ap(x, i) by {
            affp::col(self.0, v2, x, i, 0, N as int);
            assert(self.0.ent(i, N as int) * 1real == self.0.ent(i, N as int)) by (nonlinear_arith);
        }
        affp::last(self.0, v2, N as int, 0, N as int);
        assert(1real * v2.ent(N as int, 0) == v2.ent(N as int, 0)) by (nonlinear_arith);
        assert(ret.ent(N as int, 0) == 1real);
    }
//@ closure 0
    -> (y: T) requires i < N ensures nv(y) == ret.ent(i as int, 0)
//@ end
}
impl<'b, T, const N: usize> MulSpecImpl<Vector<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Vector<T, N>) -> bool { texact::<T>() && (*self).aff() }
    open spec fn mul_spec(self, other: Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'b, T, const N: usize> Mul<Vector<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    type Output = Vector<T, N>;
//@ fn src/transformation.rs | Mul<Vector<T, N>> for &Transform<T, N> | mul
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < N ==> nv(#[trigger] r.0@[i]) == (*self).ap(comps((other).0@), i)
//@ end
}
impl<'a, T, const N: usize> MulSpecImpl<&'a Vector<T, N>> for Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Vector<T, N>) -> bool { texact::<T>() && (self).aff() }
    open spec fn mul_spec(self, other: &'a Vector<T, N>) -> Vector<T, N> { arbitrary() }
}
impl<'a, T, const N: usize> Mul<&'a Vector<T, N>> for Transform<T, N> where T: TransformScalar {
    type Output = Vector<T, N>;
//@ fn src/transformation.rs | Mul<&Vector<T, N>> for Transform<T, N> | mul
//@ ret r
//@ rewrite other: &Vector<T, N> =>> other: &'a Vector<T, N>
//@ spec
    ensures forall|i: int| 0 <= i < N ==> nv(#[trigger] r.0@[i]) == (self).ap(comps((*other).0@), i)
//@ end
}
impl<'a, 'b, T, const N: usize> MulSpecImpl<&'a Point<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Point<T, N>) -> bool { texact::<T>() && (*self).aff() }
    open spec fn mul_spec(self, other: &'a Point<T, N>) -> Point<T, N> { arbitrary() }
}
impl<'a, 'b, T, const N: usize> Mul<&'a Point<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    type Output = Point<T, N>;
//@ fn src/transformation.rs | Mul<&Point<T, N>> for &Transform<T, N> | mul
//@ ret r
//@ rewrite other: &Point<T, N> =>> other: &'a Point<T, N>
//@ spec
    ensures forall|i: int| 0 <= i < N ==> nv(#[trigger] r.array@[i]) == (*self).ap(comps((*other).array@), i)
//@ rewrite? self * Vector::from(other.clone()) =>> self.mul(Vector::<T, N>::from(other.clone()))
//@ top
    proof {
        assert forall|c: [T; N], i: int| (forall|k: int| 0 <= k < N ==> call_ensures(T::clone, (&other.array@[k],), #[trigger] c@[k])) && 0 <= i < N implies #[trigger] self.ap(comps(c@), i) == self.ap(comps(other.array@), i) by {
            affp::same(self.0, comps(c@), comps(other.array@), i, N as int);
        }
    }
//@ end
}
impl<T, const N: usize> MulSpecImpl<Point<T, N>> for Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Point<T, N>) -> bool { texact::<T>() && (self).aff() }
    open spec fn mul_spec(self, other: Point<T, N>) -> Point<T, N> { arbitrary() }
}
impl<T, const N: usize> Mul<Point<T, N>> for Transform<T, N> where T: TransformScalar {
    type Output = Point<T, N>;
//@ fn src/transformation.rs | Mul<Point<T, N>> for Transform<T, N> | mul
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < N ==> nv(#[trigger] r.array@[i]) == (self).ap(comps((other).array@), i)
//@ rewrite? &self * &other =>> (&self).mul(&other)
//@ end
}
impl<'b, T, const N: usize> MulSpecImpl<Point<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Point<T, N>) -> bool { texact::<T>() && (*self).aff() }
    open spec fn mul_spec(self, other: Point<T, N>) -> Point<T, N> { arbitrary() }
}
impl<'b, T, const N: usize> Mul<Point<T, N>> for &'b Transform<T, N> where T: TransformScalar {
    type Output = Point<T, N>;
//@ fn src/transformation.rs | Mul<Point<T, N>> for &Transform<T, N> | mul
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < N ==> nv(#[trigger] r.array@[i]) == (*self).ap(comps((other).array@), i)
//@ end
}
} // verus!
