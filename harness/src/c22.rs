//! C22. Bounds: division and remainder of BigInts: dividends with magnitude below 2^6 by 8-bit signed divisors; dividends of 2 and 3 limbs of the form
//! 2^k * x (x below 4, k in {62, 64, 126}) by 1 and 3; divisors longer than the dividend (any 64-bit dividend by any divisor of 2 limbs); every by-value, by-reference,
//! assigning and primitive-operand form for 4-bit values; division by zero must panic. Around the limb boundaries: 10 dividends between 2^31 and 2^128 - 1 with 6 free low bits by 16 divisors
//! between 1 and 2^128 - 1, all signs; 6 of them with 3 free low bits, 8 patterns of 3 further bits in the middle or at the top, and 4 patterns of the divisor's low bits.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use crate::refm::*;
use numeric_traits::cast::*;
use numeric_traits::class::Signed;

fn mk(neg: bool, m: u128) -> BigInt { let b = BigInt::from(m); if neg { -b } else { b } }
fn is(b: &BigInt, v: i128) -> bool { i128::try_from(b).ok() == Some(v) }
fn small(bits: u32) -> i8 { let x: i8 = any(); assume(x > -(1 << bits) && x < (1 << bits)); x }
harness! {
    fn c22_q_div8() { let x = small(6); let y: i8 = any();
        panic_ok(y == 0); merge(1); let r = BigInt::from(x) / BigInt::from(y); merge(0); check!(y != 0);
        check!(is(&r, (x as i16 / y as i16) as i128)); }
    fn c22_q_rem8() { let x = small(6); let y: i8 = any();
        panic_ok(y == 0); merge(1); let r = BigInt::from(x) % BigInt::from(y); merge(0); check!(y != 0);
        check!(is(&r, (x as i16 % y as i16) as i128)); }
    fn c22_t_div8() { let (x, y): (i8, i8) = (any(), any());
        panic_ok(y == 0); merge(1); let r = BigInt::from(x) / BigInt::from(y); merge(0); check!(y != 0);
        check!(is(&r, (x as i16 / y as i16) as i128)); }
    fn c22_t_rem8() { let (x, y): (i8, i8) = (any(), any());
        panic_ok(y == 0); merge(1); let r = BigInt::from(x) % BigInt::from(y); merge(0); check!(y != 0);
        check!(is(&r, (x as i16 % y as i16) as i128)); }
    fn c22_q_short() { // |dividend| < |divisor|
        let (n1, n2): (bool, bool) = (any(), any()); let x: u64 = any(); let y: u128 = any(); assume(y >> 64 != 0);
        let (a, b) = (mk(n1, x as u128), mk(n2, y));
        merge(1);
        if any() { let q = a / b; merge(0); check!(is(&q, 0) && !q.is_negative()) } else { let r = a % b; merge(0); check!(is(&r, if n1 { -(x as i128) } else { x as i128 })) } }
    fn c22_q_wide() { // dividends of two and three limbs
        let n = pick(2) == 1; let x: u8 = any(); assume(x < 4); let y = [1u8, 3][pick(2)];
        let k = [62u32, 64, 126][pick(3)];
        let (a, b) = (mk(n, x as u128) << k, BigInt::from(y));
        merge(1);
        merge(0); let q = &a / &b; let r = &a % &b;
        // exact: a = q*y + r, |r| < y, sign of r that of a
        check!(r.is_zero_() || r.is_negative() == n);
        let rr = i128::try_from(&r.clone().abs()).unwrap_or(-1); check!(rr >= 0 && rr < y as i128);
        check!(q * b + r == a); }
}
trait Z { fn is_zero_(&self) -> bool; }
impl Z for BigInt { fn is_zero_(&self) -> bool { *self == 0u8 } }
harness! {
    fn c22_q_forms() { let (x, y) = (small(3), small(3)); assume(y != 0);
        let (a, b) = (BigInt::from(x), BigInt::from(y));
        let (q, r) = ((x as i16 / y as i16) as i128, (x as i16 % y as i16) as i128);
        let k = pick(10);
        merge(1);
        let (v, w) = match k { 0 => (&a / &b, q), 1 => (&a / b, q), 2 => (a / &b, q), 3 => { let mut a = a; a /= b; (a, q) } 4 => { let mut a = a; a /= &b; (a, q) }
            5 => (&a % &b, r), 6 => (&a % b, r), 7 => (a % &b, r), 8 => { let mut a = a; a %= b; (a, r) } _ => { let mut a = a; a %= &b; (a, r) } };
        merge(0);
        check!(is(&v, w)); }
}
macro_rules! prim { ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
    let x = small(3); let y: $t = small(3) as $t; assume(y != 0 && y < 8);
    let a = BigInt::from(x);
    let k = pick(4);
    merge(1);
    let v = match k { 0 => a / y, 1 => a % y, 2 => { let mut a = a; a /= y; a } _ => { let mut a = a; a %= y; a } };
    merge(0);
    let y = y as i8 as i16;
    check!(is(&v, (if k % 2 == 0 { x as i16 / y } else { x as i16 % y }) as i128));
} )* } } }
prim! { c22_q_p_u8 u8; c22_q_p_i8 i8; c22_q_p_u16 u16; c22_q_p_i16 i16; c22_q_p_u32 u32; c22_q_p_i32 i32; c22_q_p_u64 u64; c22_q_p_i64 i64; c22_q_p_usize usize; c22_q_p_isize isize; c22_q_p_u128 u128; c22_q_p_i128 i128; }
/// around the limb boundaries
#[inline(always)]
fn near(m: u128, y: u128) {
    let (n1, n2) = (pick(2) == 1, pick(2) == 1);
    let (a, b) = (mk(n1, m), mk(n2, y));
    let (q, r) = if n1 { (&a / &b, &a % &b) } else { (a.clone() / b.clone(), a % b) };
    let (qm, rm) = (u128::truncate_from(q.clone().abs()), u128::truncate_from(r.clone().abs()));
    check!(mk(n1 != n2, qm) == q); check!(mk(n1, rm) == r); // nothing above 128 bits, and the signs
    check!(divided(m, y, qm, rm));
}
macro_rules! nears { ($($n:ident $i:expr, $k:expr, $l:expr;)*) => { harness! { $( fn $n() {
    let x: u8 = any(); assume(x < $l); near(NUMS[$i] ^ ((x as u128) << $k), DENS[pick(16)]); } )* } } }
nears! { c22_q_near0 0, 0, 64; c22_q_near1 1, 0, 64; c22_q_near2 2, 0, 64; c22_q_near3 3, 0, 64; c22_q_near4 4, 0, 64; c22_q_near5 5, 0, 64; c22_q_near6 6, 0, 64; c22_q_near7 7, 0, 64; c22_q_near8 8, 0, 64; c22_q_near9 9, 0, 64;
        c22_t_near4m 4, 60, 16; c22_t_near6m 6, 60, 16; c22_t_near9m 9, 62, 16; c22_t_near9h 9, 124, 16; }
macro_rules! neard { ($($n:ident $i:expr, $k:expr;)*) => { harness! { $( fn $n() {
    let x: u8 = any(); assume(x < 8); let y = DENS[pick(16)] ^ pick(4) as u128; assume(y != 0);
    near(NUMS[$i] ^ ((pick(8) as u128) << $k) ^ x as u128, y); } )* } } }
neard! { c22_q_nearm0 0, 29; c22_q_nearm3 3, 61; c22_q_nearm4 4, 62; c22_q_nearm6 6, 62; c22_q_nearm8 8, 93; c22_q_nearm9 9, 125; }
