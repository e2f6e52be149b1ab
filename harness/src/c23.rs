//! C23. Bounds: comparison and equality of BigInts: all pairs of sign and 128-bit magnitude; all pairs of 3 limbs; pairs where one side has 3 or 4 limbs (two of them free); all comparisons of a BigInt
//! (sign and 128-bit magnitude) with every primitive integer type, all values; the same value reached by different computations.
use crate::vt::*;
use crate::*;
use core::cmp::Ordering;
use numeric_ints::BigInt;
use numeric_traits::class::Signed;
use numeric_traits::identity::*;

fn mk(neg: bool, m: u128) -> BigInt { let b = BigInt::from(m); if neg { -b } else { b } }
fn cmp(n1: bool, m1: u128, n2: bool, m2: u128) -> Ordering {
    let (n1, n2) = (n1 && m1 != 0, n2 && m2 != 0);
    match (n1, n2) { (false, true) => Ordering::Greater, (true, false) => Ordering::Less, (false, false) => m1.cmp(&m2), _ => m2.cmp(&m1) }
}
harness! {
    fn c23_q_cmp() { let (n1, n2): (bool, bool) = (any(), any()); let (m1, m2): (u128, u128) = (any(), any());
        let (a, b) = (mk(n1, m1), mk(n2, m2)); let o = cmp(n1, m1, n2, m2);
        check!(Ord::cmp(&a, &b) == o); check!(PartialOrd::partial_cmp(&a, &b) == Some(o)); }
    fn c23_q_eq() { let (n1, n2): (bool, bool) = (any(), any()); let (m1, m2): (u128, u128) = (any(), any());
        let (a, b) = (mk(n1, m1), mk(n2, m2)); let o = cmp(n1, m1, n2, m2);
        cover!(o == Ordering::Equal && m1 >> 64 != 0); cover!(o == Ordering::Equal && m1 >> 62 == 0);
        check!((a == b) == (o == Ordering::Equal)); check!((a != b) == (o != Ordering::Equal)); }
    fn c23_q_cmp3() { let (n1, n2): (bool, bool) = (any(), any()); let (m1, m2): (u128, u128) = (any(), any());
        assume(m1 >> 64 != 0);
        let (a, b) = (mk(n1, m1) << 64u8, mk(n2, m2));
        let o = if n1 { Ordering::Less } else { Ordering::Greater };
        check!(Ord::cmp(&a, &b) == o); check!(Ord::cmp(&b, &a) == o.reverse()); check!(a != b); }
    fn c23_q_cmp33() { let (n1, n2): (bool, bool) = (any(), any()); let (m1, m2): (u128, u128) = (any(), any());
        assume(m1 >> 64 != 0 && m2 >> 64 != 0);
        let (a, b) = (mk(n1, m1) << 64u8, mk(n2, m2) << 64u8);
        let o = cmp(n1, m1, n2, m2);
        check!(Ord::cmp(&a, &b) == o); check!((a == b) == (o == Ordering::Equal)); }
    fn c23_q_pred() { let (n, m): (bool, u128) = (any(), any()); let a = mk(n, m);
        check!(a.is_zero() == (m == 0)); check!(a.is_one() == (m == 1 && !n)); check!(a.is_negative() == (n && m != 0)); check!(a.is_positive() == !(n && m != 0));
        check!(BigInt::zero() == 0 && BigInt::one() == 1 && BigInt::new() == BigInt::default()); }
    fn c23_q_canon() { // one value, different routes
        let x: u64 = any(); let k = pick(4);
        let a = BigInt::from(x);
        let b = match k { 0 => BigInt::from(x as u128), 1 => (BigInt::from(x) << 64u8) >> 64u8, 2 => (BigInt::from(x as u128 + (1 << 64))) - BigInt::from(1u128 << 64), _ => -(-BigInt::from(x)) };
        check!(a == b); check!(Ord::cmp(&a, &b) == Ordering::Equal); check!(a.clone() == b); }
}
/// full three and four limb values
fn mk3(h: u64, l: u128) -> BigInt { (BigInt::from((h as u128) << 64 | l >> 64) << 64u8) + BigInt::from(l as u64) }
harness! {
    fn c23_q_cmp3f() { let (h, l, g, m): (u64, u128, u64, u128) = (any(), any(), any(), any()); assume(h != 0 && g != 0);
        let o = (h, l).cmp(&(g, m)); cover!(o == Ordering::Equal); cover!(h == g && l >> 64 == m >> 64 && o == Ordering::Less);
        let (a, b) = (mk3(h, l), mk3(g, m));
        match pick(3) { 0 => check!(Ord::cmp(&a, &b) == o), 1 => check!((a == b) == (o == Ordering::Equal)), _ => check!(Ord::cmp(&-a, &-b) == o.reverse()) } }
    fn c23_q_cmp4() { let (h, k, m): (u128, u128, u128) = (any(), any(), any()); assume(h >> 64 != 0 && k >> 64 != 0);
        let a = BigInt::from(h) << 128u8; if pick(2) == 0 { let b = BigInt::from(k) << 128u8; let o = h.cmp(&k); check!(Ord::cmp(&a, &b) == o); check!((a == b) == (o == Ordering::Equal)); }
        else { let b = BigInt::from(m) << 64u8; check!(Ord::cmp(&a, &b) == Ordering::Greater); check!(Ord::cmp(&b, &a) == Ordering::Less); check!(a != b); } }
}
macro_rules! prim { ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
    let (n, m): (bool, u128) = (any(), any()); let y: $t = any();
    let (n2, m2) = if <$t>::MIN != 0 && (y as i128) < 0 { (true, (y as i128).unsigned_abs()) } else { (false, y as u128) };
    let o = cmp(n, m, n2, m2); let a = mk(n, m);
    if any() { check!((a == y) == (o == Ordering::Equal)) } else { check!(a.partial_cmp(&y) == Some(o)) }
} )* } } }
prim! { c23_q_p_u8 u8; c23_q_p_i8 i8; c23_q_p_u16 u16; c23_q_p_i16 i16; c23_q_p_u32 u32; c23_q_p_i32 i32; c23_q_p_u64 u64; c23_q_p_i64 i64; c23_q_p_usize usize; c23_q_p_isize isize; c23_q_p_u128 u128; c23_q_p_i128 i128; }
