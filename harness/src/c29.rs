//! C29. Bounds: floor, ceil, round, trunc and fract of Fixed over i8 (N = 1, 3, 5), i16 (4, 8), i32 (1, 16), i64 (32), u8 (4) and u32 (16): every raw value
//! for which the result is representable. Rounding direction of exact halves is not claimed. Decimal text (Debug): i32 with N = 1, 2, 3 and 4, all raw values of
//! magnitude below 64; i8 (3), i16 (8), u16 (8): 256 raw values spread over the whole range; i32 (16): 6 (quick) or 256 (thorough). N within 5 bits of the width is not claimed. Binary text: every u8 with N = 1 and 4, i8 with N = 3, 256 multiples of 37 and 19 of u16 (12) and i32 (8).
use crate::vt::*;
use crate::*;
use numeric_reals::Fixed;
use numeric_traits::class::*;
use numeric_traits::identity::*;
use core::fmt::Write;

macro_rules! rnd { ($($n:ident $t:ty, $k:literal;)*) => { harness! { $( fn $n() {
    type F = Fixed<$t, $k>;
    let x: $t = any(); let w = x as i128; let one = 1i128 << $k;
    let fits = |v: i128| v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128;
    let fl = w & !(one - 1); // largest multiple of one not above w
    let ce = if fl == w { w } else { fl + one };
    let a = F::from_raw(x);
    match pick(6) {
        0 => check!(a.floor() == F::from_raw(fl as $t)),
        1 => { assume(fits(ce)); check!(a.ceil() == F::from_raw(ce as $t)); }
        2 => { let e = if w >= 0 { fl } else { ce }; check!(a.trunc() == F::from_raw(e as $t)); }
        3 => { let e = if w >= 0 { w - fl } else { w - ce }; check!(a.fract() == F::from_raw(e as $t)); }
        4 => { assume(fits(ce)); let r = a.round(); let d = (w - fl) * 2;
               cover!(d == one); cover!(d > one); cover!(d != 0 && d < one);
               check!(if d < one { r == F::from_raw(fl as $t) } else if d > one { r == F::from_raw(ce as $t) } else { r == F::from_raw(fl as $t) || r == F::from_raw(ce as $t) }); }
        _ => { check!(a.trunc() + a.fract() == a); check!(F::zero().floor() == F::zero()); }
    }
} )* } } }
rnd! { c29_q_i8_1 i8, 1; c29_q_i8_3 i8, 3; c29_q_i8_5 i8, 5; c29_q_u8_4 u8, 4; c29_q_i16_4 i16, 4; c29_q_i16_8 i16, 8; c29_q_i32_1 i32, 1; c29_q_i32_16 i32, 16; c29_q_u32_16 u32, 16; c29_q_i64_32 i64, 32; }

struct Buf([u8; 24], usize);
impl Write for Buf { fn write_str(&mut self, s: &str) -> core::fmt::Result { for b in s.bytes() { self.0[self.1] = b; self.1 += 1; } Ok(()) } }
macro_rules! txt { ($($n:ident $k:literal;)*) => { harness! { $( fn $n() {
    let x = any::<u8>() as i32 - 128; assume(x > -64 && x < 64);
    let mut o = Buf([0; 24], 0);
    let _ = write!(o, "{:?}", Fixed::<i32, $k>::from_raw(x));
    // value of the text times 10^digits, digits behind the point
    let (mut v, mut digits, mut seen, mut bad) = (0i32, 0, false, false);
    let neg = o.0[0] == b'-';
    for i in neg as usize..o.1 { let c = o.0[i]; if c == b'.' { bad |= seen; seen = true; } else { bad |= !c.is_ascii_digit(); v = v * 10 + (c.wrapping_sub(b'0')) as i32; if seen { digits += 1; } } }
    check!(!bad && seen && digits > 0 && digits <= 6);
    check!(neg == (x < 0));
    check!(v << $k == x.abs() * 10i32.pow(digits));
} )* } } }
txt! { c29_q_txt1 1; c29_q_txt2 2; c29_q_txt3 3; c29_q_txt4 4; }

macro_rules! txtw { ($($n:ident $t:ty, $k:literal, $raw:expr;)*) => { harness! { $( fn $n() {
    let x: $t = $raw;
    let mut o = Buf2([0; 80], 0);
    let _ = write!(o, "{:?}", Fixed::<$t, $k>::from_raw(x));
    let (mut v, mut digits, mut seen, mut bad) = (0u128, 0, false, false);
    let neg = o.0[0] == b'-';
    for i in neg as usize..o.1 { let c = o.0[i]; if c == b'.' { bad |= seen; seen = true; } else { bad |= !c.is_ascii_digit(); v = v * 10 + (c.wrapping_sub(b'0')) as u128; if seen { digits += 1; } } }
    check!(!bad && seen && digits > 0 && digits <= $k);
    #[allow(unused_comparisons)] { check!(neg == (x < 0)); }
    check!(v << $k == (x as i128).unsigned_abs() * 10u128.pow(digits));
} )* } } }
txtw! { c29_q_txt_i8_3 i8, 3, { let x: i8 = any(); assume(x != i8::MIN); x }; c29_q_txt_i16_8 i16, 8, (any::<u8>() as i16 - 128) * 255; c29_q_txt_u16_8 u16, 8, any::<u8>() as u16 * 257;
    c29_q_txt_i32_16 i32, 16, match pick(6) { 0 => i32::MAX, 1 => -i32::MAX, 2 => 0x7fff_0001, 3 => 1, 4 => -0x8001, _ => 0x0003_4567 }; c29_t_txt_i32_16 i32, 16, (any::<u8>() as i32 - 128) * 0xff_0f0f; c29_t_txt_i16_8 i16, 8, { let x: i16 = any(); assume(x != i16::MIN); x }; }

macro_rules! bin { ($($n:ident $t:ty, $k:literal, $raw:expr;)*) => { harness! { $( fn $n() {
    let x: $t = $raw;
    let mut o = Buf2([0; 80], 0);
    let _ = write!(o, "{:b}", Fixed::<$t, $k>::from_raw(x));
    // all digits together are the raw value (two's complement, so modulo a power of two for negative ones), the point stands before the last N digits
    let (mut v, mut digits, mut seen, mut bad) = (0u64, 0, false, false);
    for i in 0..o.1 { let c = o.0[i]; if c == b'.' { bad |= seen; seen = true; } else { bad |= c != b'0' && c != b'1'; v = v << 1 | (c & 1) as u64; if seen { digits += 1; } } }
    check!(!bad && seen && digits == $k && o.0[0] != b'.');
    check!(v as $t == x);
    #[allow(unused_comparisons)]
    if x >= 0 { check!(v == x as u64); }
} )* } } }
struct Buf2([u8; 80], usize);
impl Write for Buf2 { fn write_str(&mut self, s: &str) -> core::fmt::Result { for b in s.bytes() { self.0[self.1] = b; self.1 += 1; } Ok(()) } }
bin! { c29_q_bin_u8_4 u8, 4, any(); c29_q_bin_u8_1 u8, 1, any(); c29_q_bin_i8_3 i8, 3, any(); c29_q_bin_u16_12 u16, 12, any::<u8>() as u16 * 37; c29_q_bin_i32_8 i32, 8, (any::<u8>() as i32 - 128) * 19; }
