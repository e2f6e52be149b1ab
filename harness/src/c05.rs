//! C05. Bounds: none; every value of every primitive integer type, of every non-zero integer type, and of f32/f64 (is_zero, is_one,
//! sign predicates, abs, bounds only; NaN included).
use crate::vt::*;
use crate::*;
use core::num::*;
use numeric_traits::class::*;
use numeric_traits::identity::*;

macro_rules! ints {
    ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
        let v: $t = any();
        let h = v.hide();
        match pick(4) {
            0 => {
                check!(<$t as Zero>::zero() == 0 && <$t as One>::one() == 1);
                check!(Zero::is_zero(&v) == (h == 0));
                check!(One::is_one(&v) == (h == 1));
            }
            1 => {
                let (lo, hi) = (<$t as Bounded>::min_value(), <$t as Bounded>::max_value());
                check!(lo <= h && h <= hi);
            }
            2 => {
                let z = BoundedBit::leading_zeros(v);
                let mut e = 0;
                while e < <$t>::BITS && (h >> (<$t>::BITS - 1 - e)) & 1 == 0 { e += 1; }
                check!(z == e as $t);
            }
            _ => {
                let z = BoundedBit::trailing_zeros(v);
                let mut e = 0;
                while e < <$t>::BITS && (h >> e) & 1 == 0 { e += 1; }
                check!(z == e as $t);
            }
        }
    } )* } };
}
ints! { c05_q_u8 u8; c05_q_u16 u16; c05_q_u32 u32; c05_q_u64 u64; c05_q_u128 u128; c05_q_usize usize;
        c05_q_i8 i8; c05_q_i16 i16; c05_q_i32 i32; c05_q_i64 i64; c05_q_i128 i128; c05_q_isize isize; }

macro_rules! signed {
    ($($n:ident $t:ty, $nz:ty;)*) => { harness! { $( fn $n() {
        let v: $t = any();
        let h = v.hide();
        match pick(3) {
            0 => {
                check!(Signed::is_negative(&v) == (h < 0));
                check!(Signed::is_positive(&v) == (h >= 0));
            }
            1 => {
                panic_ok(v == <$t>::MIN);
                let r = Signed::abs(v);
                check!(v != <$t>::MIN);
                check!(r == if h < 0 { 0 - h } else { h });
            }
            _ => {
                assume(v != 0);
                let n = <$nz>::new(v).unwrap();
                check!(Signed::is_negative(&n) == (h < 0));
                check!(Signed::is_positive(&n) == (h > 0));
                check!(<$nz as BoundedSigned>::min_positive().get() == 1 && <$nz as BoundedSigned>::max_negative().get() == -1);
                panic_ok(v == <$t>::MIN);
                let r = Signed::abs(n);
                check!(v != <$t>::MIN);
                check!(r.get() == if h < 0 { 0 - h } else { h });
            }
        }
    } )* } };
}
signed! { c05_q_s8 i8, NonZeroI8; c05_q_s16 i16, NonZeroI16; c05_q_s32 i32, NonZeroI32; c05_q_s64 i64, NonZeroI64; c05_q_s128 i128, NonZeroI128; c05_q_ssize isize, NonZeroIsize; }

macro_rules! nz {
    ($($n:ident $t:ty, $nz:ty;)*) => { harness! { $( fn $n() {
        let v: $t = any();
        assume(v != 0);
        let n = <$nz>::new(v).unwrap();
        check!(<$nz as One>::one().get() == 1);
        check!(One::is_one(&n) == (v.hide() == 1));
        check!(<$nz as Bounded>::min_value().get() <= v.hide() && v.hide() <= <$nz as Bounded>::max_value().get());
    } )* } };
}
nz! { c05_q_nu8 u8, NonZeroU8; c05_q_nu16 u16, NonZeroU16; c05_q_nu32 u32, NonZeroU32; c05_q_nu64 u64, NonZeroU64; c05_q_nu128 u128, NonZeroU128; c05_q_nusize usize, NonZeroUsize;
      c05_q_ni8 i8, NonZeroI8; c05_q_ni16 i16, NonZeroI16; c05_q_ni32 i32, NonZeroI32; c05_q_ni64 i64, NonZeroI64; c05_q_ni128 i128, NonZeroI128; c05_q_nisize isize, NonZeroIsize; }

macro_rules! fl {
    ($($n:ident $t:ty, $u:ty;)*) => { harness! { $( fn $n() {
        let bits: $u = any();
        let v = <$t>::from_bits(bits);
        let h = <$t>::from_bits(bits.hide());
        match pick(4) {
            0 => { check!(Zero::is_zero(&v) == (h == 0.0)); check!(<$t as Zero>::zero() == 0.0); }
            1 => { check!(One::is_one(&v) == (h == 1.0)); check!(<$t as One>::one() == 1.0); }
            2 => { check!(Signed::is_negative(&v) == (h < 0.0)); check!(Signed::is_positive(&v) == (h >= 0.0)); }
            _ => {
                assume(h == h && h != <$t>::INFINITY && h != <$t>::NEG_INFINITY);
                check!(<$t as Bounded>::min_value() <= h && h <= <$t as Bounded>::max_value());
                let r = Signed::abs(v);
                check!(r == if h < 0.0 { -h } else { h });
            }
        }
    } )* } };
}
fl! { c05_q_f32 f32, u32; c05_q_f64 f64, u64; }
