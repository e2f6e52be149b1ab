//! C01. Bounds: none on operand values; every primitive integer type and every operation, all operand
//! pairs of the full width (shift amounts of the operand type and of usize). The oracle is exact
//! integer arithmetic in a wider type (i32..i128) for types up to 64 bits, and
//! the language's own primitive operations for the 128-bit types.
use crate::vt::*;
use crate::*;
use numeric_traits::ops::checked::*;
use numeric_traits::ops::overflowing::*;
use numeric_traits::ops::wrapping::*;

macro_rules! narrow {
    ($($n:ident $s:ident $t:ty, $w:ty;)*) => { harness! { $(
        fn $n() {
            let (a, b): ($t, $t) = (any(), any());
            let (x, y) = (a.hide() as $w, b.hide() as $w);
            let fits = |v: $w| v >= <$t>::MIN as $w && v <= <$t>::MAX as $w;
            macro_rules! tri { ($e:expr, $c:ident, $cm:ident, $o:ident, $om:ident, $wr:ident, $wm:ident) => {
                match pick(3) {
                    0 => { let r = <$t as $c>::$cm(a, b); let e: $w = $e; cover!(fits(e)); cover!(!fits(e));
                           match r { Some(v) => check!(fits(e) && v as $w == e), None => check!(!fits(e)) } }
                    1 => { let (v, f) = <$t as $o>::$om(a, b); let e: $w = $e; check!(f == !fits(e)); check!(v == e as $t); }
                    _ => { let v = <$t as $wr>::$wm(a, b); let e: $w = $e; check!(v == e as $t); }
                } } }
            match pick(4) {
                0 => tri!(x + y, CheckedAdd, checked_add, OverflowingAdd, overflowing_add, WrappingAdd, wrapping_add),
                1 => tri!(x - y, CheckedSub, checked_sub, OverflowingSub, overflowing_sub, WrappingSub, wrapping_sub),
                2 => tri!(x * y, CheckedMul, checked_mul, OverflowingMul, overflowing_mul, WrappingMul, wrapping_mul),
                _ => match <$t as CheckedDiv>::checked_div(a, b) {
                    None => check!(b == 0 || (<$t>::MIN != 0 && a == <$t>::MIN && b == !0)),
                    Some(q) => { check!(b != 0 && !(<$t>::MIN != 0 && a == <$t>::MIN && b == !0)); check!(q == a / b); }
                },
            }
        }
        fn $s() { shifts!($t); }
    )* } };
}
macro_rules! shifts {
    ($t:ty) => {{
        let (a, b): ($t, $t) = (any(), any());
        let n: usize = any();
        let (x, y, m) = (a.hide(), b.hide(), n.hide());
        let bits = <$t>::BITS as usize;
        let inr = b >= 0 && b < bits as $t;
        match pick(6) {
            0 => match <$t as CheckedShl<$t>>::checked_shl(a, b) {
                Some(v) => { check!(inr); check!(v == x << y) }
                None => check!(!inr),
            },
            1 => match <$t as CheckedShr<$t>>::checked_shr(a, b) {
                Some(v) => { check!(inr); check!(v == x >> y) }
                None => check!(!inr),
            },
            2 => match <$t as CheckedShl<usize>>::checked_shl(a, n) {
                Some(v) => { check!(n < bits); check!(v == x << m) }
                None => check!(n >= bits),
            },
            3 => match <$t as CheckedShr<usize>>::checked_shr(a, n) {
                Some(v) => { check!(n < bits); check!(v == x >> m) }
                None => check!(n >= bits),
            },
            4 => check!(<$t as WrappingShl>::wrapping_shl(a, b) == x << (y & (bits - 1) as $t)),
            _ => check!(<$t as WrappingShr>::wrapping_shr(a, b) == x >> (y & (bits - 1) as $t)),
        }
    }};
}
macro_rules! wide {
    ($($n:ident $s:ident $t:ty;)*) => { harness! { $(
        fn $n() {
            let (a, b): ($t, $t) = (any(), any());
            let (x, y) = (a.hide(), b.hide());
            match pick(10) {
                0 => check!(<$t as CheckedAdd>::checked_add(a, b) == x.checked_add(y)),
                1 => check!(<$t as CheckedSub>::checked_sub(a, b) == x.checked_sub(y)),
                2 => check!(<$t as CheckedMul>::checked_mul(a, b) == x.checked_mul(y)),
                3 => check!(<$t as CheckedDiv>::checked_div(a, b) == x.checked_div(y)),
                4 => check!(<$t as OverflowingAdd>::overflowing_add(a, b) == x.overflowing_add(y)),
                5 => check!(<$t as OverflowingSub>::overflowing_sub(a, b) == x.overflowing_sub(y)),
                6 => check!(<$t as OverflowingMul>::overflowing_mul(a, b) == x.overflowing_mul(y)),
                7 => check!(<$t as WrappingAdd>::wrapping_add(a, b) == x.wrapping_add(y)),
                8 => check!(<$t as WrappingSub>::wrapping_sub(a, b) == x.wrapping_sub(y)),
                _ => check!(<$t as WrappingMul>::wrapping_mul(a, b) == x.wrapping_mul(y)),
            }
        }
        fn $s() { shifts!($t); }
    )* } };
}
narrow! {
    c01_qb_u8 c01_qb_su8 u8, i128; c01_qb_i8 c01_qb_si8 i8, i128; c01_qb_u16 c01_qb_su16 u16, i128; c01_qb_i16 c01_qb_si16 i16, i32;
    c01_qb_u32 c01_qb_su32 u32, i128; c01_qb_i32 c01_qb_si32 i32, i64; c01_qb_i64 c01_qb_si64 i64, i128; c01_qb_isize c01_qb_sisize isize, i128;
}
wide! {
    c01_qb_u64 c01_qb_su64 u64; c01_qb_usize c01_qb_susize usize; c01_qb_u128 c01_qb_su128 u128; c01_qb_i128 c01_qb_si128 i128;
}
