// Z-order hashes: bit interleaving, its inverse, and monotonicity of the hashes of boxed points.
verus! {
//@ item src/algorithms/zhash.rs | ZHashBox | fields=pub
impl<T> Copy for ZHashBox<'_, T> {}
impl<'a, T> Clone for ZHashBox<'a, T> {
//@ fn src/algorithms/zhash.rs | Clone for ZHashBox<'a, T> | clone | probe=no
//@ ret r
//@ spec
    ensures r == *self
//@ end
}

// bits of w on the even positions
#[verifier::inline]
pub open spec fn spread(w: u32) -> u64 {
    let w = w as u64;
    let w = (w | w << 16) & 0x0000FFFF0000FFFF;
    let w = (w | w << 8) & 0x00FF00FF00FF00FF;
    let w = (w | w << 4) & 0x0F0F0F0F0F0F0F0F;
    let w = (w | w << 2) & 0x3333333333333333;
    (w | w << 1) & 0x5555555555555555
}
#[verifier::inline]
pub open spec fn squeeze(w: u64) -> u32 {
    let w = w & 0x5555555555555555;
    let w = (w | w >> 1) & 0x3333333333333333;
    let w = (w | w >> 2) & 0x0F0F0F0F0F0F0F0F;
    let w = (w | w >> 4) & 0x00FF00FF00FF00FF;
    let w = (w | w >> 8) & 0x0000FFFF0000FFFF;
    let w = (w | w >> 16) & 0x00000000FFFFFFFF;
    w as u32
}
// a on the even bits, b on the odd bits
pub open spec fn interleave(a: u32, b: u32) -> u64 { spread(a) | spread(b) << 1 }
// the numbers on the even and on the odd bits
pub open spec fn evens(w: u64) -> u32 { squeeze(w) }
pub open spec fn odds(w: u64) -> u32 { squeeze(w >> 1) }
// bit i of w
#[verifier::inline]
pub open spec fn zbit(w: u64, i: u64) -> bool { (w >> i) & 1 == 1 }
pub proof fn interleave_bits(a: u32, b: u32, i: u64)
    requires i < 32
    ensures zbit(interleave(a, b), (2 * i) as u64) == zbit(a as u64, i), zbit(interleave(a, b), (2 * i + 1) as u64) == zbit(b as u64, i)
{
    let j = (2 * i) as u64; let k = (2 * i + 1) as u64;
    assert(zbit(spread(a) | spread(b) << 1, j) == zbit(a as u64, i)) by(bit_vector) requires i < 32, j == 2 * i;
    assert(zbit(spread(a) | spread(b) << 1, k) == zbit(b as u64, i)) by(bit_vector) requires i < 32, k == 2 * i + 1;
}
// C19: the two numbers are recovered, and every hash is the interleaving of two numbers
pub proof fn unhash_hash(a: u32, b: u32) ensures evens(interleave(a, b)) == a, odds(interleave(a, b)) == b
{
    assert(squeeze(spread(a) | spread(b) << 1) == a) by(bit_vector);
    assert(squeeze((spread(a) | spread(b) << 1) >> 1) == b) by(bit_vector);
}
pub proof fn hash_unhash(w: u64) ensures interleave(evens(w), odds(w)) == w
{
    assert((spread(squeeze(w)) | spread(squeeze(w >> 1)) << 1) == w) by(bit_vector);
}
// C19: the hash is monotone in both numbers
pub proof fn interleave_mono(a: u32, b: u32, c: u32, d: u32)
    requires a <= c, b <= d
    ensures interleave(a, b) <= interleave(c, d)
{
    assert((spread(a) | spread(b) << 1) <= (spread(c) | spread(d) << 1)) by(bit_vector) requires a <= c, b <= d;
}

// Contract of a hashable coordinate type.  `zv` is the exact value.
pub trait ZHashable: Sized {
    type ZHashKey; // the source bound Copy is dropped (Verus' trait-conflict checker rejects tuples for it); see zcopy
    spec fn zv(&self) -> real;
    // the key covers the point (x, y)
    spec fn zdom(key: Self::ZHashKey, x: Self, y: Self) -> bool;
    spec fn zhash(key: Self::ZHashKey, x: Self, y: Self) -> u64;
    // C19: hashes of covered points are monotone in both coordinates
    proof fn zhash_mono(key: Self::ZHashKey, a: Self, b: Self, c: Self, d: Self)
        requires Self::zdom(key, a, b), Self::zdom(key, c, d), a.zv() <= c.zv(), b.zv() <= d.zv()
        ensures Self::zhash(key, a, b) <= Self::zhash(key, c, d);
    // C19: the key of a box covers every point in it
    fn zhash_key(zbox: ZHashBox<'_, Self>) -> (r: Self::ZHashKey)
        requires zbox.min_x.zv() <= zbox.max_x.zv(), zbox.min_y.zv() <= zbox.max_y.zv()
        ensures forall|x: Self, y: Self| zbox.min_x.zv() <= x.zv() <= zbox.max_x.zv() && zbox.min_y.zv() <= y.zv() <= zbox.max_y.zv() ==> #[trigger] Self::zdom(r, x, y);
    fn zhash_fn(key: Self::ZHashKey, point: &Point<Self>) -> (r: u64)
        requires Self::zdom(key, point.array[0], point.array[1])
        ensures r == Self::zhash(key, point.array[0], point.array[1]);
}
//@ fn src/algorithms/zhash.rs | - | zunhash_pair
//@ ret r
//@ spec
    ensures r.0 == evens(w), r.1 == odds(w), interleave(r.0, r.1) == w
//@ top
    proof { hash_unhash(w); }
//@ end
//@ fn src/algorithms/zhash.rs | - | zunhash_u32
//@ ret r
//@ spec
    ensures r == evens(w)
//@ end
//@ fn src/algorithms/zhash.rs | - | zhash_pair
//@ ret r
//@ spec
    ensures r == interleave(a, b), evens(r) == a, odds(r) == b
//@ top
    proof { unhash_hash(a, b); }
//@ end
//@ fn src/algorithms/zhash.rs | - | zhash_u32
//@ ret r
//@ spec
    ensures r == interleave(w, 0), r == spread(w)
//@ top
    proof { let x = spread(w); assert(spread(w) | spread(0) << 1 == spread(w)) by(bit_vector); }
//@ end

pub mod zhc { use vstd::prelude::*;
pub broadcast proof fn zcast_i64(x: i64) ensures #[trigger](x as u64) as int == if x < 0 { x as int + 0x1_0000_0000_0000_0000 } else { x as int }
{ assert((x < 0 ==> (x as u64) as int == x as int + 0x1_0000_0000_0000_0000) && (x >= 0 ==> (x as u64) as int == x as int)) by(bit_vector); }
}
pub mod zh { use super::zhc::zcast_i64; use super::*;
use vstd::std_specs::bits::{u64_leading_zeros, axiom_u64_leading_zeros};
// dropping the low bits of an offset so that the widest fits 32 bits
pub open spec fn zsh(width: u64) -> u32 { if u64_leading_zeros(width) >= 32 { 0 } else { (32 - u64_leading_zeros(width)) as u32 } }
pub open spec fn zfit(d: u64, s: u32) -> bool { s <= 32 && (d >> s) <= 0xffff_ffff }
pub proof fn zsh_fits(width: u64, d: u64) requires d <= width ensures zfit(d, zsh(width)) {
    axiom_u64_leading_zeros(width);
    let z = u64_leading_zeros(width) as u64;
    let s = zsh(width);
    let k = (64 - z) as u64;
    if z < 32 {
        assert(width >> k == 0);
        assert(d >> s <= 0xffff_ffff) by(bit_vector) requires d <= width, width >> k == 0, k == 32 + s, s <= 32;
    } else {
        assert(d >> s <= 0xffff_ffff) by(bit_vector) requires d <= width, z >= 64 ==> width == 0, z < 64 ==> width >> k == 0, z < 64 ==> k <= 32, s == 0;
    }
}
pub proof fn zshr_mono(a: u64, b: u64, s: u32) requires a <= b, zfit(a, s), zfit(b, s) ensures (a >> s) as u32 <= (b >> s) as u32
{
    assert((a >> s) as u32 <= (b >> s) as u32) by(bit_vector) requires a <= b, s <= 32, a >> s <= 0xffff_ffff, b >> s <= 0xffff_ffff;
}
pub open spec fn off(x: int, m: int) -> u64 { (x - m) as u64 }
broadcast use zcast_i64;
impl ZHashable for i64 {
    type ZHashKey = (i64, i64, u32, u32);
    open spec fn zv(&self) -> real { *self as int as real }
    open spec fn zdom(key: Self::ZHashKey, x: Self, y: Self) -> bool { x >= key.0 && y >= key.1 && zfit(off(x as int, key.0 as int), key.2) && zfit(off(y as int, key.1 as int), key.3) }
    open spec fn zhash(key: Self::ZHashKey, x: Self, y: Self) -> u64 { interleave((off(x as int, key.0 as int) >> key.2) as u32, (off(y as int, key.1 as int) >> key.3) as u32) }
    proof fn zhash_mono(key: Self::ZHashKey, a: Self, b: Self, c: Self, d: Self) {
        zshr_mono(off(a as int, key.0 as int), off(c as int, key.0 as int), key.2); zshr_mono(off(b as int, key.1 as int), off(d as int, key.1 as int), key.3);
        interleave_mono((off(a as int, key.0 as int) >> key.2) as u32, (off(b as int, key.1 as int) >> key.3) as u32, (off(c as int, key.0 as int) >> key.2) as u32, (off(d as int, key.1 as int) >> key.3) as u32);
    }
//@ fn src/algorithms/zhash.rs | ZHashable for i64 | zhash_key | probe=no
//@ ret r
//@ tail out
    proof { assert forall|x: Self, y: Self| zbox.min_x.zv() <= x.zv() <= zbox.max_x.zv() && zbox.min_y.zv() <= y.zv() <= zbox.max_y.zv() implies #[trigger] Self::zdom(out, x, y) by {
        zsh_fits((*zbox.max_x - *zbox.min_x) as u64, off(x as int, *zbox.min_x as int));
        zsh_fits((*zbox.max_y - *zbox.min_y) as u64, off(y as int, *zbox.min_y as int));
    } }
//@ end
//@ fn src/algorithms/zhash.rs | ZHashable for i64 | zhash_fn | probe=no
//@ ret r
//@ end
}
impl ZHashable for u64 {
    type ZHashKey = (u64, u64, u32, u32);
    open spec fn zv(&self) -> real { *self as int as real }
    open spec fn zdom(key: Self::ZHashKey, x: Self, y: Self) -> bool { x >= key.0 && y >= key.1 && zfit(off(x as int, key.0 as int), key.2) && zfit(off(y as int, key.1 as int), key.3) }
    open spec fn zhash(key: Self::ZHashKey, x: Self, y: Self) -> u64 { interleave((off(x as int, key.0 as int) >> key.2) as u32, (off(y as int, key.1 as int) >> key.3) as u32) }
    proof fn zhash_mono(key: Self::ZHashKey, a: Self, b: Self, c: Self, d: Self) {
        zshr_mono(off(a as int, key.0 as int), off(c as int, key.0 as int), key.2); zshr_mono(off(b as int, key.1 as int), off(d as int, key.1 as int), key.3);
        interleave_mono((off(a as int, key.0 as int) >> key.2) as u32, (off(b as int, key.1 as int) >> key.3) as u32, (off(c as int, key.0 as int) >> key.2) as u32, (off(d as int, key.1 as int) >> key.3) as u32);
    }
//@ fn src/algorithms/zhash.rs | ZHashable for u64 | zhash_key | probe=no
//@ ret r
//@ tail out
    proof { assert forall|x: Self, y: Self| zbox.min_x.zv() <= x.zv() <= zbox.max_x.zv() && zbox.min_y.zv() <= y.zv() <= zbox.max_y.zv() implies #[trigger] Self::zdom(out, x, y) by {
        zsh_fits((*zbox.max_x - *zbox.min_x) as u64, off(x as int, *zbox.min_x as int));
        zsh_fits((*zbox.max_y - *zbox.min_y) as u64, off(y as int, *zbox.min_y as int));
    } }
//@ end
//@ fn src/algorithms/zhash.rs | ZHashable for u64 | zhash_fn | probe=no
//@ ret r
//@ end
}
impl ZHashable for i8 {
    type ZHashKey = (i8, i8);
    open spec fn zv(&self) -> real { *self as int as real }
    open spec fn zdom(key: Self::ZHashKey, x: Self, y: Self) -> bool { x >= key.0 && y >= key.1 }
    open spec fn zhash(key: Self::ZHashKey, x: Self, y: Self) -> u64 { interleave((x - key.0) as u32, (y - key.1) as u32) }
    proof fn zhash_mono(key: Self::ZHashKey, a: Self, b: Self, c: Self, d: Self) {
        interleave_mono((a - key.0) as u32, (b - key.1) as u32, (c - key.0) as u32, (d - key.1) as u32);
    }
//@ fn src/algorithms/zhash.rs | ZHashable for i8 | zhash_key | probe=no
//@ ret r
//@ end
//@ fn src/algorithms/zhash.rs | ZHashable for i8 | zhash_fn | probe=no
//@ ret r
//@ end
}
impl ZHashable for u32 {
    type ZHashKey = ();
    open spec fn zv(&self) -> real { *self as int as real }
    open spec fn zdom(key: Self::ZHashKey, x: Self, y: Self) -> bool { true }
    open spec fn zhash(key: Self::ZHashKey, x: Self, y: Self) -> u64 { interleave(x, y) }
    proof fn zhash_mono(key: Self::ZHashKey, a: Self, b: Self, c: Self, d: Self) { interleave_mono(a, b, c, d); }
//@ fn src/algorithms/zhash.rs | ZHashable for u32 | zhash_key | probe=no
//@ ret r
//@ end
//@ fn src/algorithms/zhash.rs | ZHashable for u32 | zhash_fn | probe=no
//@ ret r
//@ end
}
}
} // verus!
