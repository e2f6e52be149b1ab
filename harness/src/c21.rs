//! C21. Bounds: multiplication of BigInts: all 64-bit signed pairs; sign and magnitude products of a 128-bit by a 64-bit magnitude, and of a 128-bit magnitude by any
//! 2^64 + x, x below 2^64 (4 limb result buffers); every by-value, by-reference, assigning and primitive-operand form. Powers: 8-bit signed bases with exponents 0..=4
//! and 64-bit bases with exponents 0..=2. Oracle: schoolbook column sums of exact limb products.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_traits::cast::*;
use numeric_traits::class::Signed;
use numeric_traits::ops::Pow;

fn mk(neg: bool, m: u128) -> BigInt { let b = BigInt::from(m); if neg { -b } else { b } }
/// a free 64-bit magnitude, split by storage class so that the limb the code multiplies is the input itself
fn mag() -> u64 { let x: u64 = any(); if pick(2) == 0 { x & (u64::MAX >> 2) } else { assume(x > u64::MAX >> 2); x } }
fn is(b: &BigInt, v: i128) -> bool { i128::try_from(b).ok() == Some(v) }
/// sign and magnitude of b, whose limbs must be e
fn eqv(b: BigInt, n: bool, e: [u128; 4]) {
    // take over the slots of the operands, so that the interner need not compare parts of the product with them
    let _p = [BigInt::from(1u8) << 300u16, BigInt::from(1u8) << 301u16, BigInt::from(1u8) << 302u16];
    let zero = e[0] == 0 && e[1] == 0 && e[2] == 0 && e[3] == 0;
    check!(b.is_negative() == (n && !zero));
    let m = b.abs();
    check!(u128::truncate_from(m.clone()) == e[0] | (e[1] << 64));
    merge(1); let hi = m >> 128u8; merge(0);
    check!(u128::truncate_from(hi) == e[2] | (e[3] << 64));
}
/// b = (-1)^n * x * y
fn prod(b: &BigInt, n: bool, x: u64, y: u64) {
    let e: [u128; 2] = mulref(&[x], &[y]);
    check!(b.is_negative() == (n && (e[0] | e[1]) != 0));
    let m = if b.is_negative() { -b } else { b.clone() };
    check!(u128::truncate_from(m.clone()) == e[0] | (e[1] << 64));
    check!(m < BigInt::from(1u8) << 128u8);
}
harness! {
    fn c21_q_mul64() { let (x, y) = (mag(), mag()); let n1: bool = any(); let n2: bool = any();
        merge(1); let r = mk(n1, x as u128) * mk(n2, y as u128); merge(0); prod(&r, n1 != n2, x, y); }
    fn c21_q_mul128_64() { let n1: bool = any(); let (m1, y): (u128, u64) = (any(), mag()); assume(m1 >> 64 != 0);
        let e: [u128; 4] = mulref(&[m1 as u64, (m1 >> 64) as u64], &[y]);
        merge(1); let r = mk(n1, m1) * mk(false, y as u128); merge(0); eqv(r, n1, e); }
    fn c21_q_mul64_128() { let (m1, y): (u128, u64) = (any(), mag()); assume(m1 >> 64 != 0);
        let e: [u128; 4] = mulref(&[m1 as u64, (m1 >> 64) as u64], &[y]);
        merge(1); let r = mk(true, y as u128) * mk(true, m1); merge(0); eqv(r, false, e); }
    fn c21_q_mul128() { let (x, m2): (u64, u128) = (any(), any()); assume(m2 >> 64 != 0); let m1 = 1 << 64 | x as u128;
        let e: [u128; 4] = mulref(&[m1 as u64, (m1 >> 64) as u64], &[m2 as u64, (m2 >> 64) as u64]);
        merge(1); let r = mk(false, m1) * mk(true, m2); merge(0); check!(r.is_negative()); let m = r.abs();
        check!(u128::truncate_from(m.clone()) == e[0] | (e[1] << 64));
        merge(1); let hi = m >> 128u8; merge(0); check!(u128::truncate_from(hi) == e[2] | (e[3] << 64)); }
    fn c21_q_forms() { let (x, y): (u32, u32) = (any(), any()); let (n1, n2): (bool, bool) = (any(), any());
        let (a, b) = (mk(n1, x as u128), mk(n2, y as u128));
        let n = n1 != n2; let (x, y) = (x as u64, y as u64);
        match pick(6) { 0 => prod(&(&a * &b), n, x, y), 1 => prod(&(&a * b), n, x, y), 2 => prod(&(a * &b), n, x, y),
            3 => { let mut a = a; a *= b; prod(&a, n, x, y) } 4 => { let mut a = a; a *= &b; prod(&a, n, x, y) }
            _ => prod(&(&a * &a), false, x, x) } }
    fn c21_q_pow16() { let x: i8 = any(); let e = pick(5);
        let m = x.unsigned_abs() as u64;
        merge(1); let r = BigInt::from(x).pow(BigInt::from(e)); merge(0);
        let w = match e { 0 => 1, 1 => m, 2 => m * m, 3 => (m * m) * m, _ => ((m * m) * m) * m };
        check!(r.is_negative() == (x < 0 && e % 2 == 1)); check!(u64::try_from(&r.abs()).ok() == Some(w)); }
    fn c21_q_pow64() { let x = mag(); let n: bool = any(); let e = pick(3);
        merge(1); let r = mk(n, x as u128).pow(BigInt::from(e)); merge(0);
        match e { 0 => check!(is(&r, 1)), 1 => prod(&r, n, x, 1), _ => prod(&r, false, x, x) } }
    fn c21_q_pow_unit() { let e = pick(40); let x = pick(3) as i128 - 1;
        let w = if e == 0 { 1 } else if x == -1 && e % 2 == 0 { 1 } else { x };
        check!(is(&BigInt::from(x).pow(BigInt::from(e)), w)); }
    fn c21_q_pow2() { let e = pick(130); // 2^e needs up to 3 limbs
        let r = BigInt::from(2).pow(BigInt::from(e)); check!(r == BigInt::from(1) << e); check!(BigInt::from(1) == r >> e); }
}
macro_rules! prim { ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
    let n1: bool = any(); let x: u32 = any(); let y: $t = any();
    let n2 = <$t>::MIN != 0 && (y as i128) < 0;
    let ym = if n2 { (y as u64).wrapping_neg() } else { y as u64 };
    if <$t>::BITS == 64 { if pick(2) == 0 { assume(ym >> 62 == 0) } else { assume(ym >> 62 != 0) } }
    let a = mk(n1, x as u128);
    merge(1);
    let r = if any() { a * y } else { let mut a = a; a *= y; a };
    merge(0);
    prod(&r, n1 != n2, x as u64, ym);
} )* } } }
prim! { c21_q_p_u8 u8; c21_q_p_i8 i8; c21_q_p_u16 u16; c21_q_p_i16 i16; c21_q_p_u32 u32; c21_q_p_i32 i32; c21_q_p_u64 u64; c21_q_p_i64 i64; c21_q_p_usize usize; c21_q_p_isize isize; }
