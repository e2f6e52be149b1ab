//! C38. Bounds: none for casts from every primitive integer type to f32 and f64 (u128 to f32: below 2^127) and from every f32 and f64 (NaN and infinities included) to every primitive
//! integer type; floor, ceil, round, trunc and fract of every finite f32 and f64. Oracle: integer arithmetic on the parts of the float's bit pattern.
//! BigInt::approx_float: every value of one limb, two-limb values with 32 free bits, and multiples of powers of 2^64 up to 20 limbs, both signs.
//! Rounding of negative non-whole values is only claimed to be whole and less than one away, and the direction of exact halves is not claimed.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_traits::cast::*;
use numeric_traits::class::*;

/// a finite float as sign, whole part (saturated at 2^127) and fraction: 0 none, 1 below a half, 2 a half, 3 above
#[derive(Clone, Copy)]
struct P { neg: bool, w: u128, f: u8 }
trait Fl: Copy { const MB: u32; const BIAS: i32; const EB: u32; fn b(self) -> u64;
    fn nan(self) -> bool { (self.b() >> Self::MB) & ((1 << Self::EB) - 1) == (1 << Self::EB) - 1 && self.b() & ((1 << Self::MB) - 1) != 0 }
    fn inf(self) -> bool { (self.b() >> Self::MB) & ((1 << Self::EB) - 1) == (1 << Self::EB) - 1 && self.b() & ((1 << Self::MB) - 1) == 0 }
    /// infinities have a saturated whole part
    fn parts(self) -> P {
        let b = self.b(); let neg = b >> (Self::MB + Self::EB) != 0;
        let e = ((b >> Self::MB) & ((1 << Self::EB) - 1)) as i32; let m = b & ((1 << Self::MB) - 1);
        let x = e - Self::BIAS; // value = 1.m * 2^x for e > 0
        if e == 0 || x < -1 { return P { neg, w: 0, f: (b << (64 - Self::MB - Self::EB) != 0) as u8 }; }
        let m = m | 1 << Self::MB;
        if x == -1 { return P { neg, w: 0, f: if m == 1 << Self::MB { 2 } else { 3 } }; }
        if x >= 127 { return P { neg, w: 1 << 127, f: 0 }; }
        if x >= Self::MB as i32 { return P { neg, w: (m as u128) << (x - Self::MB as i32), f: 0 }; }
        let k = Self::MB as i32 - x; // fraction bits
        let fr = m & ((1u64 << k) - 1); let half = 1u64 << (k - 1);
        P { neg, w: (m >> k) as u128, f: if fr == 0 { 0 } else if fr < half { 1 } else if fr == half { 2 } else { 3 } }
    }
}
impl Fl for f32 { const MB: u32 = 23; const BIAS: i32 = 127; const EB: u32 = 8; fn b(self) -> u64 { self.to_bits() as u64 } }
impl Fl for f64 { const MB: u32 = 52; const BIAS: i32 = 1023; const EB: u32 = 11; fn b(self) -> u64 { self.to_bits() } }

/// r is the float nearest to (-1)^neg * m
fn nearest<F: Fl>(r: F, neg: bool, m: u128) {
    check!(!r.nan() && !r.inf());
    let p = r.parts();
    check!(p.f == 0); check!(m == 0 || p.neg == neg); check!(m != 0 || p.w == 0);
    let bits = 128 - m.leading_zeros();
    let ulp = if bits > F::MB + 1 { 1u128 << (bits - F::MB - 1) } else { 0 };
    let err = if p.w > m { p.w - m } else { m - p.w };
    check!(err <= ulp / 2);
}
macro_rules! to_float { ($($n:ident $f:ty, $t:ty;)*) => { harness! { $( fn $n() {
    let x: $t = any();
    #[allow(unused_comparisons)]
    let neg = x < 0; let m = if neg { (x as i128).unsigned_abs() } else { x as u128 };
    assume(m < 1 << 127);
    merge(1); let p = <$f as FromSaturating<$t>>::saturate_from(x); merge(0);
    nearest(p, neg, m);
} )* } } }
to_float! { c38_q_f32_u8 f32, u8; c38_q_f32_i8 f32, i8; c38_q_f32_u16 f32, u16; c38_q_f32_i16 f32, i16; c38_q_f32_u32 f32, u32; c38_q_f32_i32 f32, i32; c38_q_f32_u64 f32, u64; c38_q_f32_i64 f32, i64;
            c38_q_f32_usize f32, usize; c38_q_f32_isize f32, isize; c38_q_f32_u128 f32, u128; c38_q_f32_i128 f32, i128;
            c38_q_f64_u8 f64, u8; c38_q_f64_i8 f64, i8; c38_q_f64_u16 f64, u16; c38_q_f64_i16 f64, i16; c38_q_f64_u32 f64, u32; c38_q_f64_i32 f64, i32; c38_q_f64_u64 f64, u64; c38_q_f64_i64 f64, i64;
            c38_q_f64_usize f64, usize; c38_q_f64_isize f64, isize; c38_q_f64_u128 f64, u128; c38_q_f64_i128 f64, i128; }

macro_rules! to_int { ($($n:ident $f:ty, $u:ty, $t:ty;)*) => { harness! { $( fn $n() {
    let b: $u = any(); let x = <$f>::from_bits(b);
    let r = <$t as FromSaturating<$f>>::saturate_from(x);
    if x.nan() { check!(r == 0); return; }
    let p = x.parts();
    let max = <$t>::MAX as u128; let min = <$t>::MIN.unsigned_abs_() ;
    let hi = if p.neg { min } else { max };
    #[allow(unused_comparisons)]
    let (rn, rm) = (r < 0, if r < 0 { (r as i128).unsigned_abs() } else { r as u128 });
    if p.w > hi || p.w == 1 << 127 { check!(rm == if <$t>::BITS == 128 && p.w < hi { rm } else { hi }); check!(rn == (p.neg && hi != 0)); }
    else { check!(rm == p.w || p.f != 0 && rm == p.w + 1); check!(rm == 0 || rn == p.neg); }
} )* } } }
trait Ua { fn unsigned_abs_(self) -> u128; }
macro_rules! ua { ($($t:ty)*) => { $( impl Ua for $t { #[allow(unused_comparisons)] fn unsigned_abs_(self) -> u128 { if self < 0 { (self as i128).unsigned_abs() } else { self as u128 } } } )* } }
ua! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
to_int! { c38_q_u8_f32 f32, u32, u8; c38_q_i8_f32 f32, u32, i8; c38_q_u16_f32 f32, u32, u16; c38_q_i16_f32 f32, u32, i16; c38_q_u32_f32 f32, u32, u32; c38_q_i32_f32 f32, u32, i32;
          c38_q_u64_f32 f32, u32, u64; c38_q_i64_f32 f32, u32, i64; c38_q_usize_f32 f32, u32, usize; c38_q_isize_f32 f32, u32, isize; c38_q_u128_f32 f32, u32, u128; c38_q_i128_f32 f32, u32, i128;
          c38_q_u8_f64 f64, u64, u8; c38_q_i8_f64 f64, u64, i8; c38_q_u16_f64 f64, u64, u16; c38_q_i16_f64 f64, u64, i16; c38_q_u32_f64 f64, u64, u32; c38_q_i32_f64 f64, u64, i32;
          c38_q_u64_f64 f64, u64, u64; c38_q_i64_f64 f64, u64, i64; c38_q_usize_f64 f64, u64, usize; c38_q_isize_f64 f64, u64, isize; c38_q_u128_f64 f64, u64, u128; c38_q_i128_f64 f64, u64, i128; }

macro_rules! round { ($($n:ident $f:ty, $u:ty;)*) => { harness! { $( fn $n() {
    let b: $u = any(); let x = <$f>::from_bits(b); assume(!x.nan() && !x.inf());
    let p = x.parts();
    let k = pick(4);
    let r = match k { 0 => Real::floor(x), 1 => Real::ceil(x), 2 => Real::round(x), _ => Real::trunc(x) };
    check!(!r.nan() && !r.inf());
    if p.f == 0 { check!(r == x); return; }
    let q = r.parts();
    check!(q.f == 0); check!(q.w == p.w || q.w == p.w + 1); check!(q.w == 0 || q.neg == p.neg);
    match k {
        0 | 3 => if !p.neg { check!(q.w == p.w) },
        1 => if !p.neg { check!(q.w == p.w + 1) },
        _ => { if p.f == 1 { check!(q.w == p.w) } if p.f == 3 { check!(q.w == p.w + 1) } }
    }
} )* } } }
round! { c38_q_round32 f32, u32; c38_q_round64 f64, u64; }
harness! {
    fn c38_q_fract32() { let b: u32 = any(); let x = f32::from_bits(b); assume(!x.nan() && !x.inf() && b >> 31 == 0); let r = Real::fract(x); check!(r >= 0.0 && r < 1.0); check!((r == 0.0) == (x.parts().f == 0)); }
    fn c38_q_fract64() { let b: u64 = any(); let x = f64::from_bits(b); assume(!x.nan() && !x.inf() && b >> 63 == 0); let r = Real::fract(x); check!(r >= 0.0 && r < 1.0); check!((r == 0.0) == (x.parts().f == 0)); }
}

/// r approximates (-1)^neg * m: right sign, whole, and the error is at most one part in 2^52
fn approx(r: f64, neg: bool, m: u128) {
    check!(!r.nan() && !r.inf());
    let p = r.parts();
    check!(p.f == 0); check!(m == 0 || p.neg == neg); check!(m != 0 || p.w == 0);
    let bits = 128 - m.leading_zeros();
    let err = if p.w > m { p.w - m } else { m - p.w };
    check!(err <= if bits > 53 { 1u128 << (bits - 53) } else { 0 });
}
fn sg(b: BigInt, neg: bool) -> BigInt { if neg { -b } else { b } }
harness! {
    fn c38_q_approx64() { let x: u64 = any(); let neg = pick(2) == 1; let r = sg(BigInt::from(x), neg).approx_float(); approx(r, neg, x as u128); }
    fn c38_q_approx128() {
        let h: u16 = any(); let l: u16 = any(); assume(h != 0); let (a, b) = ([0, 20, 47][pick(3)], [0, 48][pick(2)]);
        let x = (h as u128) << (64 + a) | (l as u128) << b; let neg = a == 20;
        let r = sg(BigInt::from(x), neg).approx_float(); approx(r, neg, x); }
    // v * 2^(64k): exact up to f64's range, an infinity of the right sign beyond it, never NaN
    fn c38_q_approx_big() {
        let v = [1u8, 2, 3, 129, 255][pick(5)]; let neg = pick(2) == 1; let k = [2u16, 3, 15, 16, 17, 19][pick(6)];
        let r = sg(BigInt::from(v) << (64 * k), neg).approx_float();
        check!(!r.nan()); check!((r.to_bits() >> 63 == 1) == neg);
        if k >= 16 { check!(r.inf()); return; }
        check!(!r.inf());
        let e = 7 - v.leading_zeros() as u64;
        check!(r.to_bits() << 1 >> 53 == 1023 + 64 * k as u64 + e);
        check!(r.to_bits() & ((1 << 52) - 1) == ((v as u64) << (52 - e)) & ((1 << 52) - 1));
    }
}
