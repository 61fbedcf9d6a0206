// Specifications of core functions that vstd lacks (from the standard library documentation).
verus! {
pub assume_specification<T, F: FnOnce(&T, &T) -> Ordering> [ std::cmp::min_by ] (a: T, b: T, f: F) -> (r: T)
    requires f.requires((&a, &b)) ensures exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && r == (if o == Ordering::Greater { b } else { a });
pub assume_specification<T, F: FnOnce(&T, &T) -> Ordering> [ std::cmp::max_by ] (a: T, b: T, f: F) -> (r: T)
    requires f.requires((&a, &b)) ensures exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && r == (if o == Ordering::Greater { a } else { b });
pub assume_specification<T> [ <[T]>::swap ] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification [ <Ordering as PartialEq>::eq ] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);
pub assume_specification [ Ordering::is_eq ] (o: Ordering) -> (b: bool) ensures b == (o == Ordering::Equal);
pub assume_specification [ Ordering::is_ne ] (o: Ordering) -> (b: bool) ensures b == (o != Ordering::Equal);
pub assume_specification [ Ordering::is_lt ] (o: Ordering) -> (b: bool) ensures b == (o == Ordering::Less);
pub assume_specification [ Ordering::is_gt ] (o: Ordering) -> (b: bool) ensures b == (o == Ordering::Greater);
pub assume_specification [ Ordering::is_le ] (o: Ordering) -> (b: bool) ensures b == (o != Ordering::Greater);
pub assume_specification [ Ordering::is_ge ] (o: Ordering) -> (b: bool) ensures b == (o != Ordering::Less);
pub assume_specification [ Ordering::reverse ] (o: Ordering) -> (r: Ordering) ensures r == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less };
pub assume_specification [ Ordering::then ] (o: Ordering, p: Ordering) -> (r: Ordering) ensures r == if o == Ordering::Equal { p } else { o };
pub assume_specification<F: FnOnce() -> Ordering> [ Ordering::then_with ] (o: Ordering, f: F) -> (r: Ordering) requires o == Ordering::Equal ==> f.requires(()) ensures o != Ordering::Equal ==> r == o, o == Ordering::Equal ==> f.ensures((), r);
pub assume_specification [ <i8>::saturating_abs ] (a: i8) -> (r: i8) ensures r as int == if a == i8::MIN { i8::MAX as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i8>::wrapping_abs ] (a: i8) -> (r: i8) ensures r as int == if a == i8::MIN { i8::MIN as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i8>::abs ] (a: i8) -> (r: i8) requires a != i8::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i8>::signum ] (a: i8) -> (r: i8) ensures r as int == if a < 0 { -1int } else if a > 0 { 1int } else { 0int };
pub assume_specification [ <i8>::is_negative ] (a: i8) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ <i8>::is_positive ] (a: i8) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ <i8>::abs_diff ] (a: i8, b: i8) -> (r: u8) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <i16>::saturating_abs ] (a: i16) -> (r: i16) ensures r as int == if a == i16::MIN { i16::MAX as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i16>::wrapping_abs ] (a: i16) -> (r: i16) ensures r as int == if a == i16::MIN { i16::MIN as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i16>::abs ] (a: i16) -> (r: i16) requires a != i16::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i16>::signum ] (a: i16) -> (r: i16) ensures r as int == if a < 0 { -1int } else if a > 0 { 1int } else { 0int };
pub assume_specification [ <i16>::is_negative ] (a: i16) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ <i16>::is_positive ] (a: i16) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ <i16>::abs_diff ] (a: i16, b: i16) -> (r: u16) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <i32>::saturating_abs ] (a: i32) -> (r: i32) ensures r as int == if a == i32::MIN { i32::MAX as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i32>::wrapping_abs ] (a: i32) -> (r: i32) ensures r as int == if a == i32::MIN { i32::MIN as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i32>::abs ] (a: i32) -> (r: i32) requires a != i32::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i32>::signum ] (a: i32) -> (r: i32) ensures r as int == if a < 0 { -1int } else if a > 0 { 1int } else { 0int };
pub assume_specification [ <i32>::is_negative ] (a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ <i32>::is_positive ] (a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ <i32>::abs_diff ] (a: i32, b: i32) -> (r: u32) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <i64>::saturating_abs ] (a: i64) -> (r: i64) ensures r as int == if a == i64::MIN { i64::MAX as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i64>::wrapping_abs ] (a: i64) -> (r: i64) ensures r as int == if a == i64::MIN { i64::MIN as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i64>::abs ] (a: i64) -> (r: i64) requires a != i64::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i64>::signum ] (a: i64) -> (r: i64) ensures r as int == if a < 0 { -1int } else if a > 0 { 1int } else { 0int };
pub assume_specification [ <i64>::is_negative ] (a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ <i64>::is_positive ] (a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ <i64>::abs_diff ] (a: i64, b: i64) -> (r: u64) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <i128>::saturating_abs ] (a: i128) -> (r: i128) ensures r as int == if a == i128::MIN { i128::MAX as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i128>::wrapping_abs ] (a: i128) -> (r: i128) ensures r as int == if a == i128::MIN { i128::MIN as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i128>::abs ] (a: i128) -> (r: i128) requires a != i128::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <i128>::signum ] (a: i128) -> (r: i128) ensures r as int == if a < 0 { -1int } else if a > 0 { 1int } else { 0int };
pub assume_specification [ <i128>::is_negative ] (a: i128) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ <i128>::is_positive ] (a: i128) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ <i128>::abs_diff ] (a: i128, b: i128) -> (r: u128) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <isize>::saturating_abs ] (a: isize) -> (r: isize) ensures r as int == if a == isize::MIN { isize::MAX as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <isize>::wrapping_abs ] (a: isize) -> (r: isize) ensures r as int == if a == isize::MIN { isize::MIN as int } else if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <isize>::abs ] (a: isize) -> (r: isize) requires a != isize::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ <isize>::signum ] (a: isize) -> (r: isize) ensures r as int == if a < 0 { -1int } else if a > 0 { 1int } else { 0int };
pub assume_specification [ <isize>::is_negative ] (a: isize) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ <isize>::is_positive ] (a: isize) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ <isize>::abs_diff ] (a: isize, b: isize) -> (r: usize) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <u8>::abs_diff ] (a: u8, b: u8) -> (r: u8) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <u16>::abs_diff ] (a: u16, b: u16) -> (r: u16) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <u32>::abs_diff ] (a: u32, b: u32) -> (r: u32) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <u64>::abs_diff ] (a: u64, b: u64) -> (r: u64) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <u128>::abs_diff ] (a: u128, b: u128) -> (r: u128) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <usize>::abs_diff ] (a: usize, b: usize) -> (r: usize) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [ <i8>::saturating_add ] (a: i8, b: i8) -> (r: i8) ensures r as int == if a + b > i8::MAX { i8::MAX as int } else if a + b < i8::MIN { i8::MIN as int } else { a + b };
pub assume_specification [ <i8>::saturating_sub ] (a: i8, b: i8) -> (r: i8) ensures r as int == if a - b > i8::MAX { i8::MAX as int } else if a - b < i8::MIN { i8::MIN as int } else { a - b };
pub assume_specification [ <i16>::saturating_add ] (a: i16, b: i16) -> (r: i16) ensures r as int == if a + b > i16::MAX { i16::MAX as int } else if a + b < i16::MIN { i16::MIN as int } else { a + b };
pub assume_specification [ <i16>::saturating_sub ] (a: i16, b: i16) -> (r: i16) ensures r as int == if a - b > i16::MAX { i16::MAX as int } else if a - b < i16::MIN { i16::MIN as int } else { a - b };
pub assume_specification [ <i32>::saturating_add ] (a: i32, b: i32) -> (r: i32) ensures r as int == if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b };
pub assume_specification [ <i32>::saturating_sub ] (a: i32, b: i32) -> (r: i32) ensures r as int == if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b };
pub assume_specification [ <i64>::saturating_add ] (a: i64, b: i64) -> (r: i64) ensures r as int == if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b };
pub assume_specification [ <i64>::saturating_sub ] (a: i64, b: i64) -> (r: i64) ensures r as int == if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b };
pub assume_specification [ <i128>::saturating_add ] (a: i128, b: i128) -> (r: i128) ensures r as int == if a + b > i128::MAX { i128::MAX as int } else if a + b < i128::MIN { i128::MIN as int } else { a + b };
pub assume_specification [ <i128>::saturating_sub ] (a: i128, b: i128) -> (r: i128) ensures r as int == if a - b > i128::MAX { i128::MAX as int } else if a - b < i128::MIN { i128::MIN as int } else { a - b };
pub assume_specification [ <isize>::saturating_add ] (a: isize, b: isize) -> (r: isize) ensures r as int == if a + b > isize::MAX { isize::MAX as int } else if a + b < isize::MIN { isize::MIN as int } else { a + b };
pub assume_specification [ <isize>::saturating_sub ] (a: isize, b: isize) -> (r: isize) ensures r as int == if a - b > isize::MAX { isize::MAX as int } else if a - b < isize::MIN { isize::MIN as int } else { a - b };

// a comparison closure that is a total preorder on T
pub open spec fn cmp_preorder<T, F: FnMut(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: &T, b: &T| #[trigger] f.requires((a, b))
    &&& forall|a: &T, b: &T, p: Ordering, q: Ordering| #[trigger] f.ensures((a, b), p) && #[trigger] f.ensures((b, a), q) ==> q == orev(p)
    &&& forall|a: &T, b: &T, c: &T, p: Ordering, q: Ordering, r: Ordering| #[trigger] f.ensures((a, b), p) && #[trigger] f.ensures((b, c), q) && #[trigger] f.ensures((a, c), r)
            && p != Ordering::Greater && q != Ordering::Greater ==> r != Ordering::Greater
}
pub open spec fn cmp_sorted<T, F: FnMut(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> exists|p: Ordering| p != Ordering::Greater && #[trigger] f.ensures((&s[i], &s[j]), p)
}
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [ <[T]>::sort_unstable_by ] (s: &mut [T], f: F)
    requires cmp_preorder(f)
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), cmp_sorted(f, final(s)@);
} // verus!
verus! {
pub open spec fn key_le<T, K: Ord, F: FnMut(&T) -> K>(f: F, a: T, b: T) -> bool { exists|p: K, q: K| #[trigger] f.ensures((&a,), p) && #[trigger] f.ensures((&b,), q) && p.cmp_spec(&q) != Ordering::Greater }
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K> [ <[T]>::sort_unstable_by_key ] (s: &mut [T], f: F)
    requires
        K::obeys_cmp_spec(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] f.requires((&old(s)@[i],)),
        forall|a: &T, p: K, q: K| #[trigger] f.ensures((a,), p) && #[trigger] f.ensures((a,), q) ==> p == q
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), forall|i: int, j: int| #![trigger final(s)@[i], final(s)@[j]] 0 <= i < j < final(s)@.len() ==> key_le(f, final(s)@[i], final(s)@[j]);
pub assume_specification<T: Ord> [ std::cmp::min ] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
pub assume_specification<T: Ord> [ std::cmp::max ] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });
} // verus!
