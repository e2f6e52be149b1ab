//! C19. Bounds: every value of every primitive integer type converted into a BigInt, and every BigInt of up to 2 limbs (all 128-bit signed and
//! unsigned values) and 3-limb BigInts (any 128-bit magnitude shifted left by 64, either sign) converted to every primitive integer type by the
//! checked (TryFrom, FromChecked), saturating and truncating forms.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_traits::cast::*;
use numeric_traits::identity::*;
use numeric_traits::class::Signed;

/// sign, magnitude -> BigInt through the widest constructors
fn mk(neg: bool, m: u128) -> BigInt { let b = BigInt::from(m); if neg { -b } else { b } }

macro_rules! rt { ($($n:ident $t:ty;)*) => { harness! { $(
    fn $n() {
        let x: $t = any();
        let b = BigInt::from(x);
        merge(1);
        match pick(5) {
            0 => check!(<$t>::try_from(&b).ok() == Some(x)),
            1 => check!(<$t as FromChecked<BigInt>>::from_checked(b) == Some(x)),
            2 => check!(<$t as FromSaturating<BigInt>>::saturate_from(b) == x),
            3 => check!(<$t as FromTruncating<BigInt>>::truncate_from(b) == x),
            _ => { check!(b == x); check!(b.is_zero() == (x == 0)); check!(b.is_one() == (x == 1)); check!(b.is_negative() == ((x as i128) < 0 && <$t>::MIN != 0)); check!(b.is_positive() != b.is_negative()); }
        }
    }
)* } } }
rt! { c19_q_rt_u8 u8; c19_q_rt_i8 i8; c19_q_rt_u16 u16; c19_q_rt_i16 i16; c19_q_rt_u32 u32; c19_q_rt_i32 i32; c19_q_rt_u64 u64; c19_q_rt_i64 i64;
      c19_q_rt_usize usize; c19_q_rt_isize isize; c19_q_rt_u128 u128; c19_q_rt_i128 i128; }

macro_rules! to { ($($n:ident $n3:ident $t:ty;)*) => { harness! { $(
    fn $n() {
        let (neg, m): (bool, u128) = (any(), any());
        let min = <$t>::MIN.unsigned_abs_() ;
        let inr = if neg { m <= min } else { m <= <$t>::MAX as u128 };
        let exact = (if neg { m.wrapping_neg() } else { m }) as $t;
        let sat = if inr { exact } else if neg { <$t>::MIN } else { <$t>::MAX };
        let b = mk(neg, m);
        merge(1);
        match pick(4) {
            0 => { let r = <$t>::try_from(&b); match r { Ok(r) => { check!(inr); check!(r == exact) } Err(_) => check!(!inr) } }
            1 => { let r = <$t as FromChecked<BigInt>>::from_checked(b); match r { Some(r) => { check!(inr); check!(r == exact) } None => check!(!inr) } }
            2 => check!(<$t as FromSaturating<BigInt>>::saturate_from(b) == sat),
            _ => check!(<$t as FromTruncating<BigInt>>::truncate_from(b) == exact),
        }
    }
    fn $n3() {
        let (neg, m): (bool, u128) = (any(), any());
        assume(m >> 64 != 0);
        let low = m << 64;
        let b = mk(neg, m) << 64u8;
        merge(1);
        match pick(3) {
            0 => check!(<$t>::try_from(&b).is_err()),
            1 => check!(<$t as FromSaturating<BigInt>>::saturate_from(b) == if neg { <$t>::MIN } else { <$t>::MAX }),
            _ => check!(<$t as FromTruncating<BigInt>>::truncate_from(b) == (if neg { low.wrapping_neg() } else { low }) as $t),
        }
    }
)* } } }
trait UAbs { fn unsigned_abs_(self) -> u128; }
macro_rules! uabs { ($($t:ty)*) => { $( impl UAbs for $t { fn unsigned_abs_(self) -> u128 { (self as i128).unsigned_abs() } } )* } }
uabs!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
to! { c19_q_to_u8 c19_q_to3_u8 u8; c19_q_to_i8 c19_q_to3_i8 i8; c19_q_to_u16 c19_q_to3_u16 u16; c19_q_to_i16 c19_q_to3_i16 i16; c19_q_to_u32 c19_q_to3_u32 u32;
      c19_q_to_i32 c19_q_to3_i32 i32; c19_q_to_u64 c19_q_to3_u64 u64; c19_q_to_i64 c19_q_to3_i64 i64; c19_q_to_usize c19_q_to3_usize usize;
      c19_q_to_isize c19_q_to3_isize isize; c19_q_to_u128 c19_q_to3_u128 u128; c19_q_to_i128 c19_q_to3_i128 i128; }
