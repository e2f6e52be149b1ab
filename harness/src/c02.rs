//! C02. Bounds: none on values; all 144 ordered pairs of primitive integer types for checked and truncating
//! conversion, the 143 implemented pairs for saturating conversion (no i8-from-isize implementation exists),
//! both through the From* and the Into* direction. Oracle: exact value in a sign/magnitude 129-bit form.
use crate::vt::*;
use crate::*;
use numeric_traits::cast::*;

/// (is negative, magnitude): exact for every primitive integer
trait Val: Copy {
    fn val(self) -> (bool, u128);
}
macro_rules! val { ($($u:ty, $i:ty);*) => { $(
    impl Val for $u { #[inline(always)] fn val(self) -> (bool, u128) { (false, self as u128) } }
    impl Val for $i { #[inline(always)] fn val(self) -> (bool, u128) { (self < 0, self.unsigned_abs() as u128) } }
)* } }
val!(u8, i8; u16, i16; u32, i32; u64, i64; u128, i128; usize, isize);
#[inline(always)]
fn le(a: (bool, u128), b: (bool, u128)) -> bool {
    match (a.0, b.0) {
        (true, false) => true,
        (false, true) => false,
        (false, false) => a.1 <= b.1,
        (true, true) => a.1 >= b.1,
    }
}
macro_rules! one {
    ($f:ty, $t:ty, $bits:expr, sat = $sat:tt) => {{
        let v: $f = any();
        let w: $f = v.hide();
        let (lo, hi) = (<$t>::MIN.val(), <$t>::MAX.val());
        let fits = le(lo, w.val()) && le(w.val(), hi);
        match pick(6) {
            0 => match <$t as FromChecked<$f>>::from_checked(v) {
                Some(r) => { check!(fits); check!(r.val() == w.val()) }
                None => check!(!fits),
            },
            1 => match IntoChecked::<$t>::into_checked(v) {
                Some(r) => { check!(fits); check!(r.val() == w.val()) }
                None => check!(!fits),
            },
            2 => check!(<$t as FromTruncating<$f>>::truncate_from(v) == w as $t),
            3 => check!(IntoTruncating::<$t>::truncate(v) == w as $t),
            4 => { sat!($sat, { let r = <$t as FromSaturating<$f>>::saturate_from(v); sat_ok(r.val(), w.val(), lo, hi) }) }
            _ => { sat!($sat, { let r: $t = IntoSaturating::<$t>::saturate(v); sat_ok(r.val(), w.val(), lo, hi) }) }
        }
    }};
}
macro_rules! sat { (yes, $e:expr) => { check!($e) }; (no, $e:expr) => { () }; }
#[inline(always)]
fn sat_ok(r: (bool, u128), v: (bool, u128), lo: (bool, u128), hi: (bool, u128)) -> bool {
    if !le(lo, v) { r == lo } else if !le(v, hi) { r == hi } else { r == v }
}
macro_rules! from {
    ($($n:ident $f:ty, $i8:tt;)*) => { harness! { $( fn $n() {
        match pick(12) {
            0 => one!($f, u8, 8, sat = yes), 1 => one!($f, u16, 16, sat = yes), 2 => one!($f, u32, 32, sat = yes),
            3 => one!($f, u64, 64, sat = yes), 4 => one!($f, u128, 128, sat = yes), 5 => one!($f, usize, 64, sat = yes),
            6 => one!($f, i8, 8, sat = $i8), 7 => one!($f, i16, 16, sat = yes), 8 => one!($f, i32, 32, sat = yes),
            9 => one!($f, i64, 64, sat = yes), 10 => one!($f, i128, 128, sat = yes), _ => one!($f, isize, 64, sat = yes),
        }
    } )* } };
}
from! {
    c02_q_u8 u8, yes; c02_q_u16 u16, yes; c02_q_u32 u32, yes; c02_q_u64 u64, yes; c02_q_u128 u128, yes; c02_q_usize usize, yes;
    c02_q_i8 i8, yes; c02_q_i16 i16, yes; c02_q_i32 i32, yes; c02_q_i64 i64, yes; c02_q_i128 i128, yes; c02_q_isize isize, no;
}
