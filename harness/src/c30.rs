//! C30. Bounds: Rat over i8, i16 and u8, u16: new with both parts of magnitude below 2^5 (2^4 for 16 bits, 12 for i32; 2^6 in thorough); field operations on i8 with numerators of magnitude
//! below 2^3 and denominators 1..=6 (any sign of the numerator; i16, below 2^5 and 1..=16, and i32 in thorough); identities, negation, sign over all values. Oracle: cross multiplication and the absence of a common divisor
//! (a free variable).
use crate::vt::*;
use crate::*;
use numeric_reals::Rat;
use numeric_traits::class::*;
use numeric_traits::identity::*;

/// reduced, positive denominator
fn canon(n: i64, d: i64) {
    check!(d > 0);
    let c: i64 = any::<u8>() as i64; assume(c > 1 && c < 128);
    check!(!(n % c == 0 && d % c == 0));
    check!(n != 0 || d == 1);
}
macro_rules! new { ($($n:ident $t:ty, $lim:expr;)*) => { harness! { $( fn $n() {
    let (x, y): ($t, $t) = (any(), any());
    assume((x as i64).abs() < $lim && (y as i64).abs() < $lim);
    merge(2);
    let r = Rat::<$t>::new(x, y);
    merge(0);
    check!(r.is_none() == (y == 0));
    if let Some(r) = r {
        cover!(*r.denominator() as i64 != (y as i64).abs() && x != 0);
        check!((*r.numerator() as i64) * y as i64 == (*r.denominator() as i64) * x as i64);
        canon(*r.numerator() as i64, *r.denominator() as i64);
        let (n, d) = r.into_pair(); check!(n == *r.numerator() && d == *r.denominator());
    }
} )* } } }
new! { c30_q_new_i8 i8, 32; c30_q_new_i32 i32, 12; c30_t_new_i32 i32, 32; c30_q_new_i16 i16, 16; c30_q_new_u8 u8, 32; c30_q_new_u16 u16, 16; c30_t_new_i8 i8, 64; c30_t_new_u8 u8, 100; c30_t_new_i64 i64, 64; }

macro_rules! over { ($md:ident, $t:ty) => { mod $md { use super::*;
pub fn mk(lim: i32, dlim: i32) -> (Rat<$t>, i64, i64) {
    let (x, y) = (any::<i8>(), any::<i8>()); assume((x as i32) > -lim && (x as i32) < lim && y > 0 && (y as i32) <= dlim);
    (Rat::new(x as $t, y as $t).unwrap(), x as i64, y as i64)
}
pub fn is(r: Rat<$t>, n: i64, d: i64) {
    check!(*r.numerator() as i64 * d == *r.denominator() as i64 * n);
    canon(*r.numerator() as i64, *r.denominator() as i64);
}
pub fn field(op: u8, lim: i32, dlim: i32) {
    merge(2);
    let (a, n1, d1) = mk(lim, dlim); let (b, n2, d2) = mk(lim, dlim);
    match op {
        0 => { let r = a + b; merge(0); is(r, n1 * d2 + n2 * d1, d1 * d2) }
        1 => { let r = a - b; merge(0); is(r, n1 * d2 - n2 * d1, d1 * d2) }
        2 => { let r = a * b; merge(0); is(r, n1 * n2, d1 * d2) }
        3 => { panic_ok(n2 == 0); let r = a / b; merge(0); check!(n2 != 0); is(r, n1 * d2, d1 * n2) }
        _ => { merge(0); check!((a == b) == (n1 * d2 == n2 * d1)); check!((a != b) == (n1 * d2 != n2 * d1)); }
    }
}
} } }
over! { b8, i8 } over! { b16, i16 } over! { b32, i32 }
harness! {
    fn c30_q_add() { b8::field(0, 8, 6); } fn c30_q_sub() { b8::field(1, 8, 6); } fn c30_q_mul() { b8::field(2, 8, 6); } fn c30_q_div() { b8::field(3, 8, 6); } fn c30_q_eq() { b8::field(4, 16, 12); }
    fn c30_t_add() { b16::field(0, 32, 12); } fn c30_t_sub() { b16::field(1, 32, 12); } fn c30_t_mul() { b16::field(2, 32, 16); } fn c30_t_div() { b16::field(3, 32, 16); } fn c30_t_addw() { b32::field(0, 6, 5); } fn c30_t_divw() { b32::field(3, 6, 5); }
    fn c30_t_eq() { b16::field(4, 64, 32); }
    fn c30_q_ident() {
        let k = pick(5); let (a, n, d) = b8::mk(32, 32);
        match k {
            0 => { check!(a.is_zero() == (n == 0)); check!(a.is_one() == (n == d)); check!(a.is_negative() == (n < 0)); check!(a.is_positive() == (n >= 0)); }
            1 => { let r = -a; b8::is(r, -n, d); }
            2 => { let r = a.abs(); b8::is(r, n.abs(), d); }
            3 => { check!(Rat::<i32>::zero().into_pair() == (0, 1) && Rat::<i32>::one().into_pair() == (1, 1) && Rat::<i32>::default().is_zero()); check!(Rat::<i32>::one().is_one() && Rat::<i32>::zero().is_zero()); }
            _ => { check!(Rat::<i32>::max_value().into_pair() == (i32::MAX, 1) && Rat::<i32>::min_value().into_pair() == (i32::MIN, 1)); }
        } }
    fn c30_q_whole() { let (x, y): (i32, i32) = (any(), any()); // whole numbers embed
        let (a, b) = unsafe { (Rat::new_unchecked(x, 1), Rat::new_unchecked(y, 1)) };
        check!((a == b) == (x == y)); check!(a.is_zero() == (x == 0)); check!(a.is_one() == (x == 1)); check!(a.is_negative() == (x < 0)); }
}
