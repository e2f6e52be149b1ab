//! C28. Bounds: Fixed over i8 (N = 1, 3, 6), u8 (4), i16 (4, 8), i32 (1, 16), u32 (16) and i64 (32): all raw value pairs for addition, subtraction,
//! remainder, negation, order, equality, identities, bounds and sign; multiplication and division for all pairs of i8, u8, i16 (division: one N of i16 in thorough) whose raw product (scaled
//! dividend) fits the backing type, the same for i32, u32 with 12-bit (multiplication: 16-bit) magnitudes of one operand. Oracle: exact integer arithmetic on
//! the raw values in i128.
use crate::vt::*;
use crate::*;
use numeric_reals::Fixed;
use numeric_traits::class::*;
use numeric_traits::identity::*;

macro_rules! lin { ($($n:ident $t:ty, $k:literal;)*) => { harness! { $( fn $n() {
    type F = Fixed<$t, $k>;
    let (x, y): ($t, $t) = (any(), any()); let (a, b) = (F::from_raw(x), F::from_raw(y));
    let (wx, wy) = (x as i128, y as i128);
    let fits = |v: i128| v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128;
    match pick(7) {
        0 => { let s = wx + wy; panic_ok(!fits(s)); let r = a + b; check!(fits(s)); check!(r == F::from_raw(s as $t)); }
        1 => { let s = wx - wy; panic_ok(!fits(s)); let r = a - b; check!(fits(s)); check!(r == F::from_raw(s as $t)); }
        2 => { check!((a == b) == (x == y)); check!((a != b) == (x != y)); check!(a.partial_cmp(&b) == Some(x.cmp(&y))); check!(a.cmp(&b) == x.cmp(&y));
               check!((a < b) == (x < y)); check!((a <= b) == (x <= y)); }
        3 => { check!(a.is_zero() == (x == 0)); check!(a.is_one() == (wx == 1i128 << $k)); check!(F::zero() == F::from_raw(0)); check!(F::one() == F::from_raw(1 << $k));
               check!(F::new() == F::zero() && F::default() == F::zero()); check!(F::one().is_one() && F::zero().is_zero()); }
        4 => { check!(F::min_value() == F::from_raw(<$t>::MIN)); check!(F::max_value() == F::from_raw(<$t>::MAX)); check!(F::min_value() <= a && a <= F::max_value()); }
        5 => { let w = wx << $k; assume(fits(w)); check!(F::from_val(x) == F::from_raw(w as $t)); }
        _ => { let ok = y != 0 && !(<$t>::MIN != 0 && x == <$t>::MIN && wy == -1); panic_ok(!ok); let r = a % b; check!(ok); check!(r == F::from_raw((wx % wy) as $t)); }
    }
} )* } } }
lin! { c28_q_lin_i8_1 i8, 1; c28_q_lin_i8_3 i8, 3; c28_q_lin_i8_6 i8, 6; c28_q_lin_u8_4 u8, 4; c28_q_lin_i16_8 i16, 8; c28_q_lin_i32_16 i32, 16; c28_q_lin_u32_16 u32, 16; c28_q_lin_i64_32 i64, 32; }

macro_rules! sgn { ($($n:ident $t:ty, $k:literal;)*) => { harness! { $( fn $n() {
    type F = Fixed<$t, $k>;
    let x: $t = any(); let a = F::from_raw(x);
    match pick(4) {
        0 => { panic_ok(x == <$t>::MIN); let r = -a; check!(x != <$t>::MIN); check!(r == F::from_raw(-x)); }
        1 => { panic_ok(x == <$t>::MIN); let r = a.abs(); check!(x != <$t>::MIN); check!(r == F::from_raw(if x < 0 { -x } else { x })); }
        2 => { check!(a.is_negative() == (x < 0)); check!(a.is_positive() == (x >= 0)); }
        _ => { check!(F::min_positive() == F::from_raw(1)); check!(F::max_negative() == F::from_raw(-1));
               check!(x <= 0 || F::min_positive() <= a); check!(x >= 0 || F::max_negative() >= a); }
    }
} )* } } }
sgn! { c28_q_sgn_i8 i8, 3; c28_q_sgn_i16 i16, 8; c28_q_sgn_i32 i32, 16; c28_q_sgn_i64 i64, 32; }

macro_rules! mul { ($($n:ident $t:ty, $k:literal, $lim:expr;)*) => { harness! { $( fn $n() {
    type F = Fixed<$t, $k>;
    let (x, y): ($t, $t) = (any(), any());
    let (wx, wy) = (x as i64, y as i64);
    assume(wy < $lim && wy >= -$lim);
    let p = wx * wy;
    assume(p >= <$t>::MIN as i64 && p <= <$t>::MAX as i64);
    cover!(p & ((1 << $k) - 1) != 0);
    let (a, b) = (F::from_raw(x), F::from_raw(y));
    let r = if pick(2) == 0 { a * b } else { b * a };
    let f = p >> $k; // floor of the exact raw result
    check!(r == F::from_raw(f as $t) || (p & ((1 << $k) - 1) != 0 && r == F::from_raw((f + 1) as $t)));
} )* } } }
mul! { c28_q_mul_i8_1 i8, 1, 1000; c28_q_mul_i8_3 i8, 3, 1000; c28_q_mul_i8_6 i8, 6, 1000; c28_q_mul_u8_4 u8, 4, 1000; c28_q_mul_i16_4 i16, 4, 100000; c28_q_mul_i16_8 i16, 8, 100000;
    c28_q_mul_i32_16 i32, 16, 65536; c28_q_mul_u32_16 u32, 16, 65536; c28_q_mul_i32_1 i32, 1, 65536; }

macro_rules! div { ($($n:ident $t:ty, $k:literal, $lim:expr;)*) => { harness! { $( fn $n() {
    type F = Fixed<$t, $k>;
    let (x, y): ($t, $t) = (any(), any());
    let (wx, wy) = (x as i64, y as i64);
    assume(wy < $lim && wy >= -$lim);
    let s = wx << $k;
    assume(s >= <$t>::MIN as i64 && s <= <$t>::MAX as i64);
    assume(y == 0 || (s != <$t>::MIN as i64 || wy != -1));
    panic_ok(y == 0);
    let r = F::from_raw(x) / F::from_raw(y);
    check!(y != 0);
    let (q, m) = ((s as $t / y) as i64, (s as $t % y) as i64);
    // the exact quotient lies between q and q +- 1
    let away = if (m < 0) == (wy < 0) { q + 1 } else { q - 1 };
    cover!(m != 0);
    check!(r == F::from_raw(q as $t) || (m != 0 && away >= <$t>::MIN as i64 && away <= <$t>::MAX as i64 && r == F::from_raw(away as $t)));
} )* } } }
div! { c28_q_div_i8_1 i8, 1, 1000; c28_q_div_i8_3 i8, 3, 1000; c28_q_div_u8_4 u8, 4, 1000; c28_q_div_i16_4 i16, 4, 256; c28_t_div_i16_8 i16, 8, 100000; c28_q_div_i32_16 i32, 16, 65536; c28_q_div_u32_16 u32, 16, 65536; }
