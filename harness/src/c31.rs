//! C31. Bounds: round of Rat<i16>: numerators of magnitude below 2^6, denominators 1..=40 (i32, i64, 2^7 and 100 in thorough), of Rat<i8>: below 40 and 1..=20, of Rat<u16>: below 2^6 and 1..=40; floor and ceil: the same,
//! non-negative values and whole numbers of either sign (the documentation of floor and ceil for negative values is contradictory; they are not claimed). The direction of exact halves is not claimed.
use crate::vt::*;
use crate::*;
use numeric_reals::Rat;
use numeric_traits::class::*;

macro_rules! rnd { ($($n:ident $t:ty, $lim:expr, $dl:expr;)*) => { harness! { $( fn $n() {
    let (x, y): ($t, $t) = (any(), any()); let (n, d) = (x as i64, y as i64);
    assume(n > -$lim && n < $lim && d > 0 && d <= $dl);
    merge(2);
    let a = Rat::<$t>::new(x, y).unwrap();
    let k = pick(3);
    let r = match k { 0 => a.round(), 1 => { assume(n >= 0 || n % d == 0); a.floor() } _ => { assume(n >= 0 || n % d == 0); a.ceil() } };
    merge(0);
    let (m, one) = r.into_pair(); let m = m as i64;
    check!(one as i64 == 1);
    match k {
        0 => check!((m * d - n).abs() * 2 <= d),
        1 => check!(m * d <= n && n < (m + 1) * d),
        _ => check!(m * d >= n && n > (m - 1) * d),
    }
} )* } } }
rnd! { c31_t_i32n i32, 16, 9; c31_q_i16 i16, 64, 40; c31_q_u16 u16, 64, 40; c31_q_i8 i8, 40, 20; c31_t_i32 i32, 128, 100; c31_t_i64 i64, 128, 100; }
