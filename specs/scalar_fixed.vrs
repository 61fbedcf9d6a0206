// fixed_precision!: every instance of the macro, extracted from the macro's own body.
verus! {
pub broadcast proof fn cast_i8(x: i8) ensures #[trigger](x as u8) as int == if x < 0 { x as int + 0x100 } else { x as int }
{ assert((x < 0 ==> (x as u8) as int == x as int + 0x100) && (x >= 0 ==> (x as u8) as int == x as int)) by(bit_vector); }
pub broadcast proof fn cast_i16(x: i16) ensures #[trigger](x as u16) as int == if x < 0 { x as int + 0x1_0000 } else { x as int }
{ assert((x < 0 ==> (x as u16) as int == x as int + 0x1_0000) && (x >= 0 ==> (x as u16) as int == x as int)) by(bit_vector); }
pub broadcast proof fn cast_i32(x: i32) ensures #[trigger](x as u32) as int == if x < 0 { x as int + 0x1_0000_0000 } else { x as int }
{ assert((x < 0 ==> (x as u32) as int == x as int + 0x1_0000_0000) && (x >= 0 ==> (x as u32) as int == x as int)) by(bit_vector); }
pub broadcast proof fn cast_i64(x: i64) ensures #[trigger](x as u64) as int == if x < 0 { x as int + 0x1_0000_0000_0000_0000 } else { x as int }
{ assert((x < 0 ==> (x as u64) as int == x as int + 0x1_0000_0000_0000_0000) && (x >= 0 ==> (x as u64) as int == x as int)) by(bit_vector); }
pub broadcast proof fn cast_isize(x: isize) ensures #[trigger](x as usize) as int == if x < 0 { x as int + 0x1_0000_0000_0000_0000 } else { x as int }
{ assert((x < 0 ==> (x as usize) as int == x as int + 0x1_0000_0000_0000_0000) && (x >= 0 ==> (x as usize) as int == x as int)) by(bit_vector); }
pub broadcast group casts { cast_i8, cast_i16, cast_i32, cast_i64, cast_isize }

pub assume_specification [ <u16>::overflowing_add ] (a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == (a + b > u16::MAX), r.0 as int == (if r.1 { a + b - 0x1_0000 } else { a + b });
pub assume_specification [ <u32>::overflowing_add ] (a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == (a + b > u32::MAX), r.0 as int == (if r.1 { a + b - 0x1_0000_0000 } else { a + b });
pub assume_specification [ <u64>::overflowing_add ] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a + b > u64::MAX), r.0 as int == (if r.1 { a + b - 0x1_0000_0000_0000_0000 } else { a + b });
pub assume_specification [ <u128>::overflowing_add ] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a + b > u128::MAX), r.0 as int == (if r.1 { a + b - 0x1_0000_0000_0000_0000_0000_0000_0000_0000 } else { a + b });
pub assume_specification [ <i8>::unsigned_abs ] (a: i8) -> (r: u8) ensures r as int == iabs(a as int);
pub assume_specification [ <i16>::unsigned_abs ] (a: i16) -> (r: u16) ensures r as int == iabs(a as int);
pub assume_specification [ <i32>::unsigned_abs ] (a: i32) -> (r: u32) ensures r as int == iabs(a as int);
pub assume_specification [ <i64>::unsigned_abs ] (a: i64) -> (r: u64) ensures r as int == iabs(a as int);
pub assume_specification [ <isize>::unsigned_abs ] (a: isize) -> (r: usize) ensures r as int == iabs(a as int);
} // verus!

//@ foreach_macro src/lib.rs fixed_precision
verus! {
pub mod sc_$mod {
use super::*;
broadcast use casts;

// products of the two signed differences, as the code computes them from magnitudes
pub proof fn products(ux: int, vy: int, uy: int, vx: int)
    requires
        -$uty::MAX <= ux <= $uty::MAX, -$uty::MAX <= vy <= $uty::MAX,
        -$uty::MAX <= uy <= $uty::MAX, -$uty::MAX <= vx <= $uty::MAX,
    ensures
        iabs(ux) * iabs(vy) <= $ulong::MAX, iabs(uy) * iabs(vx) <= $ulong::MAX,
        0 <= iabs(ux) * iabs(vy), 0 <= iabs(uy) * iabs(vx),
        iabs(vy) * iabs(ux) == iabs(ux) * iabs(vy), iabs(vx) * iabs(uy) == iabs(uy) * iabs(vx),
        ux * vy == if (ux < 0) != (vy < 0) { -(iabs(ux) * iabs(vy)) } else { iabs(ux) * iabs(vy) },
        uy * vx == if (uy < 0) != (vx < 0) { -(iabs(uy) * iabs(vx)) } else { iabs(uy) * iabs(vx) },
        (ux != 0 && vy != 0) ==> iabs(ux) * iabs(vy) > 0, (ux == 0 || vy == 0) ==> iabs(ux) * iabs(vy) == 0,
        (uy != 0 && vx != 0) ==> iabs(uy) * iabs(vx) > 0, (uy == 0 || vx == 0) ==> iabs(uy) * iabs(vx) == 0,
        xcross(ux as real, uy as real, vx as real, vy as real) == (ux * vy - uy * vx) as real,
{
    lemma_mul_abs(ux, vy, $uty::MAX as int); lemma_mul_abs(uy, vx, $uty::MAX as int);
    assert($uty::MAX * $uty::MAX <= $ulong::MAX) by(nonlinear_arith);
    lemma_real_cross(ux, uy, vx, vy);
}
pub proof fn squares(x: int, y: int)
    requires -$uty::MAX <= x <= $uty::MAX, -$uty::MAX <= y <= $uty::MAX,
    ensures
        0 <= iabs(x) * iabs(x) <= $ulong::MAX, 0 <= iabs(y) * iabs(y) <= $ulong::MAX,
        iabs(x) * iabs(x) == x * x, iabs(y) * iabs(y) == y * y,
        (x as real) * (x as real) == (x * x) as real, (y as real) * (y as real) == (y * y) as real,
{
    lemma_mul_abs(x, x, $uty::MAX as int); lemma_mul_abs(y, y, $uty::MAX as int);
    assert($uty::MAX * $uty::MAX <= $ulong::MAX) by(nonlinear_arith);
    lemma_real_mul(x, x); lemma_real_mul(y, y);
}

impl TotalOrd for $ty {
    open spec fn tcmp(&self, other: &Self) -> Ordering { icmp(*self as int, *other as int) }
    proof fn tcmp_laws(a: &Self, b: &Self, c: &Self) {}
//@ fn src/lib.rs#fixed_precision | TotalOrd for $ty | total_cmp | probe=no
//@ ret o
//@ end
}

impl PolygonScalar for $ty {
    open spec fn v(&self) -> real { *self as int as real }
    open spec fn ideal() -> bool { false }
    proof fn scalar_laws(a: Self, b: Self) {}
//@ fn src/lib.rs#fixed_precision | PolygonScalar for $ty | from_constant | probe=no
//@ ret r
//@ end
//@ fn src/lib.rs#fixed_precision | PolygonScalar for $ty | cmp_dist | probe=no
//@ ret o
//@ top
        proof { squares(p[0] - q[0], p[1] - q[1]); squares(p[0] - r[0], p[1] - r[1]); }
//@ nested diff
//@ ret d
//@ spec
          ensures d as int == iabs(a - b), d <= $uty::MAX
//@ endnested
//@ end
//@ fn src/lib.rs#fixed_precision | PolygonScalar for $ty | cmp_slope | probe=no
//@ ret o
//@ top
        proof { products(q[0] - p[0], r[1] - p[1], q[1] - p[1], r[0] - p[0]); }
//@ nested diff
//@ ret d
//@ spec
          ensures d.0 <= $uty::MAX, d.0 as int == iabs(a - b), d.1 == (b > a)
//@ endnested
//@ end
//@ fn src/lib.rs#fixed_precision | PolygonScalar for $ty | cmp_vector_slope | probe=no
//@ ret o
//@ top
        proof { products(vector[0] as int, q[1] - p[1], vector[1] as int, q[0] - p[0]); }
//@ nested diff
//@ ret d
//@ spec
          ensures d.0 <= $uty::MAX, d.0 as int == iabs(a - b), d.1 == (b > a)
//@ endnested
//@ end
//@ fn src/lib.rs#fixed_precision | PolygonScalar for $ty | cmp_perp_vector_slope | probe=no
//@ ret o
//@ top
        proof { products(-vector[1] as int, q[1] - p[1], vector[0] as int, q[0] - p[0]); }
//@ nested diff
//@ ret d
//@ spec
          ensures d.0 <= $uty::MAX, d.0 as int == iabs(a - b), d.1 == (b > a)
//@ endnested
//@ end
}
}
} // verus!
//@ endforeach
