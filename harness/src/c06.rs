//! C06. Bounds: none on values; every primitive integer type U<1>, U<2>, U<3>, U<5>, U<8>, U<16> and F<2>, F<3>, F<4>, F<8>,
//! in both byte orders and the native one.
use crate::vt::*;
use crate::*;
use numeric_ints::U;
use numeric_reals::F;
use numeric_traits::bytes::ConvertBytes;

fn rev<const N: usize>(a: [u8; N]) -> [u8; N] { let mut r = [0; N]; let mut i = 0; while i < N { r[i] = a[N - 1 - i]; i += 1; } r }
macro_rules! prim { ($($n:ident $t:ty, $u:ty, $len:expr, $bits:expr;)*) => { harness! { $( fn $n() {
    let b: [u8; $len] = any();
    let bits: fn($t) -> $u = $bits;
    let mut le = 0 as $u; let mut i = 0; while i < $len { le |= (b[i] as $u) << (8 * i as u32); i += 1; }
    let mut be = 0 as $u; i = 0; while i < $len { be = if $len == 1 { b[0] as $u } else { be.wrapping_shl(8) | b[i] as $u }; i += 1; }
    let l = <$t as ConvertBytes<$len>>::from_le_bytes(b); let e = <$t as ConvertBytes<$len>>::from_be_bytes(b); let n = <$t as ConvertBytes<$len>>::from_ne_bytes(b);
    check!(bits(l) == le); check!(bits(e) == be); check!(bits(n) == if cfg!(target_endian = "little") { le } else { be });
    check!(<$t as ConvertBytes<$len>>::to_le_bytes(l) == b); check!(<$t as ConvertBytes<$len>>::to_be_bytes(e) == b); check!(<$t as ConvertBytes<$len>>::to_ne_bytes(n) == b);
    check!(<$t as ConvertBytes<$len>>::to_be_bytes(l) == rev(b));
} )* } } }
prim! { c06_q_u8 u8, u8, 1, |x| x; c06_q_i8 i8, u8, 1, |x| x as u8; c06_q_u16 u16, u16, 2, |x| x; c06_q_i16 i16, u16, 2, |x| x as u16; c06_q_u32 u32, u32, 4, |x| x; c06_q_i32 i32, u32, 4, |x| x as u32;
        c06_q_u64 u64, u64, 8, |x| x; c06_q_i64 i64, u64, 8, |x| x as u64; c06_q_u128 u128, u128, 16, |x| x; c06_q_i128 i128, u128, 16, |x| x as u128; c06_q_usize usize, usize, 8, |x| x; c06_q_isize isize, usize, 8, |x| x as usize; }
macro_rules! un { ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
    let b: [u8; $len] = any();
    let u = U::<$len>::from_le_bytes(b);
    check!(u.to_le_bytes() == b); check!(u.to_be_bytes() == rev(b)); check!(u.to_ne_bytes() == if cfg!(target_endian = "little") { b } else { rev(b) });
    let e = U::<$len>::from_be_bytes(b);
    check!(e.to_be_bytes() == b); check!(e.to_le_bytes() == rev(b)); check!(e == U::from_le_bytes(rev(b)));
    check!(U::<$len>::from_ne_bytes(b).to_ne_bytes() == b); check!(U::<$len>::from_ne_bytes(b) == if cfg!(target_endian = "little") { u } else { e });
} )* } } }
un! { c06_q_un1 1; c06_q_un2 2; c06_q_un3 3; c06_q_un5 5; c06_q_un8 8; c06_q_un16 16; }
macro_rules! fl { ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
    let b: [u8; $len] = any();
    let f = || F::<$len>::from_le_bytes(b);
    check!(f().to_le_bytes() == b); check!(f().to_be_bytes() == rev(b)); check!(f().to_ne_bytes() == if cfg!(target_endian = "little") { b } else { rev(b) });
    let e = || F::<$len>::from_be_bytes(b);
    check!(e().to_be_bytes() == b); check!(e().to_le_bytes() == rev(b));
    check!(F::<$len>::from_ne_bytes(b).to_ne_bytes() == b);
    check!(f().to_bits() == U::from_le_bytes(b)); check!(F::<$len>::from_bits(U::from_le_bytes(b)).to_le_bytes() == b);
} )* } } }
fl! { c06_q_f2 2; c06_q_f3 3; c06_q_f4 4; c06_q_f8 8; }
