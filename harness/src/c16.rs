//! C16. Bounds: order, equality, zero/one/bounds: U<1>, U<2>, U<3>, U<4>, U<5>, U<7>, U<8>, U<12>, U<16>, U<20>, U<32>, all value pairs. Conversions with every primitive unsigned
//! type: U<1>, U<2>, U<3>, U<5>, U<8>, U<9>, U<16>, U<17>, all values. Decimal text: U<1> all values, U<2> below 2^9 and U<3> below 2^7; 9 wide values (U<2> to U<20>, up to 2^128) with 6 free low bits.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use core::cmp::Ordering;
use core::fmt::Write;
use numeric_ints::U;
use numeric_traits::cast::*;
use numeric_traits::class::Bounded;
use numeric_traits::identity::*;

fn v<const N: usize>(u: U<N>) -> u128 { val(&u.to_le_bytes()) }

macro_rules! ord {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        match pick(4) {
            0 => { let o = Ord::cmp(&a, &b); check!((o == Ordering::Less) == (x < y)); check!((o == Ordering::Greater) == (x > y)); check!(PartialOrd::partial_cmp(&a, &b) == Some(o)); }
            1 => { check!((a == b) == (x == y)); check!((a != b) == (x != y)); check!((a < b) == (x < y)); check!((a >= b) == (x >= y)); }
            2 => { check!(a.is_zero() == (x == 0)); check!(a.is_one() == (x == 1)); check!(v(U::<$len>::zero()) == 0 && v(U::<$len>::one()) == 1 && v(U::<$len>::new()) == 0 && v(U::<$len>::default()) == 0); }
            _ => { check!(v(U::<$len>::min_value()) == 0 && v(U::<$len>::max_value()) == ones(8 * $len)); }
        }
    } )* } };
}
ord! { c16_q_ord1 1; c16_q_ord2 2; c16_q_ord3 3; c16_q_ord4 4; c16_q_ord8 8; c16_q_ord16 16; }

fn big<const N: usize>(a: &[u8; N]) -> (u128, bool) { (val(a), fits(a)) }

macro_rules! conv {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let a: [u8; $len] = any();
        let (x, fit) = big(&a);
        let u = U::<$len>::from_le_bytes(a);
        macro_rules! to { ($t:ty) => {{
            let inr = fit && x <= <$t>::MAX as u128;
            match pick(3) {
                0 => match <$t as FromChecked<U<$len>>>::from_checked(u) { Some(r) => { check!(inr); check!(r as u128 == x) } None => check!(!inr) },
                1 => { let r = <$t as FromSaturating<U<$len>>>::saturate_from(u); check!(r == if inr { x as $t } else { <$t>::MAX }); }
                _ => { let r = <$t as FromTruncating<U<$len>>>::truncate_from(u); check!(r == x as $t); }
            }
        }} }
        macro_rules! from { ($t:ty) => {{
            let p: $t = any();
            let inr = $len * 8 >= 128 || (p as u128) <= ones(8 * $len);
            match U::<$len>::from_checked(p) { Some(r) => { check!(inr); let b = r.to_le_bytes(); check!(fits(&b) && val(&b) == p as u128) } None => check!(!inr) }
        }} }
        match pick(12) {
            0 => to!(u8), 1 => to!(u16), 2 => to!(u32), 3 => to!(u64), 4 => to!(u128), 5 => to!(usize),
            6 => from!(u8), 7 => from!(u16), 8 => from!(u32), 9 => from!(u64), 10 => from!(u128), _ => from!(usize),
        }
    } )* } };
}
conv! { c16_q_conv1 1; c16_q_conv2 2; c16_q_conv3 3; c16_q_conv5 5; c16_q_conv8 8; c16_q_conv9 9; c16_q_conv16 16; c16_q_conv17 17; }

harness! {
    fn c16_q_named() {
        let p: u128 = any();
        match pick(6) {
            0 => { let q = p as u8; check!(U::<1>::from_u8(q).as_u8() == q && v(U::<1>::from_u8(q)) == q as u128) }
            1 => { let q = p as u16; check!(U::<2>::from_u16(q).as_u16() == q && v(U::<2>::from_u16(q)) == q as u128) }
            2 => { let q = p as u32; check!(U::<4>::from_u32(q).as_u32() == q && v(U::<4>::from_u32(q)) == q as u128) }
            3 => { let q = p as u64; check!(U::<8>::from_u64(q).as_u64() == q && v(U::<8>::from_u64(q)) == q as u128) }
            4 => { let q = p as usize; check!(U::<8>::from_usize(q).as_usize() == q && v(U::<8>::from_usize(q)) == q as u128) }
            _ => check!(U::<16>::from_u128(p).as_u128() == p && v(U::<16>::from_u128(p)) == p),
        }
    }
}

/// collects the digits a formatter writes
struct Dec { v: u32, n: u32, lead0: bool, bad: bool }
impl Write for Dec {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if c < b'0' || c > b'9' { self.bad = true; }
            if self.n == 0 { self.lead0 = c == b'0'; }
            self.v = self.v.wrapping_mul(10).wrapping_add((c as u32).wrapping_sub(48));
            self.n += 1;
        }
        Ok(())
    }
}
macro_rules! dec {
    ($($n:ident $len:expr, $lim:expr;)*) => { harness! { $( fn $n() {
        let a: [u8; $len] = any();
        let x = val(&a);
        assume(x <= $lim);
        let mut d = Dec { v: 0, n: 0, lead0: false, bad: false };
        merge(1);
        let ok = if any() { write!(d, "{}", U::<$len>::from_le_bytes(a)) } else { write!(d, "{:?}", U::<$len>::from_le_bytes(a)) };
        merge(0);
        check!(ok.is_ok() && !d.bad);
        check!(d.v as u128 == x);
        check!(d.n >= 1 && (d.n == 1 || !d.lead0));
    } )* } };
}
dec! { c16_q_dec1 1, 255; c16_q_dec2 2, 0x1ff; c16_q_dec3 3, 0x7f; c16_t_dec2 2, 0xfff; c16_t_dec16 16, 0xff; }

macro_rules! word {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (u, w) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        if pick(2) == 0 { merge(1); let o = Ord::cmp(&u, &w); merge(0); check!((o == Ordering::Less) == ltref(&a, &b)); check!((o == Ordering::Greater) == ltref(&b, &a)); }
        else { check!((u == w) == (a == b)); check!(u.is_zero() == (a == [0; $len])); let mut one = [0; $len]; one[0] = 1; check!(u.is_one() == (a == one)); }
    } )* } };
}
word! { c16_q_word5 5; c16_q_word7 7; c16_q_word12 12; c16_q_word20 20; c16_q_word32 32; }
struct Dec128 { v: u128, n: u32, lead0: bool, bad: bool }
impl Write for Dec128 {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if c < b'0' || c > b'9' { self.bad = true; }
            if self.n == 0 { self.lead0 = c == b'0'; }
            self.v = self.v.wrapping_mul(10).wrapping_add((c as u128).wrapping_sub(48));
            self.n += 1;
        }
        Ok(())
    }
}
// wide values: constants with free low bits
macro_rules! wdec { ($($n:ident $len:expr, $base:expr, $lim:expr;)*) => { harness! { $( fn $n() {
    let l: u8 = any(); assume(l < $lim); let x = $base as u128 ^ l as u128;
    let a: [u8; $len] = core::array::from_fn(|i| if i < 16 { (x >> (8 * i)) as u8 } else { 0 });
    let mut d = Dec128 { v: 0, n: 0, lead0: false, bad: false };
    let ok = write!(d, "{}", U::<$len>::from_le_bytes(a));
    check!(ok.is_ok() && !d.bad);
    check!(d.v == x);
    check!(d.n >= 1 && (d.n == 1 || !d.lead0));
} )* } } }
wdec! { c16_q_wdec2 2, 0xfff8u16, 64; c16_q_wdec3 3, 9_999_999u32, 64; c16_q_wdec4 4, 0xffff_fff8u32, 64; c16_q_wdec8 8, (1u64 << 63) | 0x550, 64; c16_q_wdec8b 8, u64::MAX - 7, 64; c16_q_wdec8c 8, 10_000_000_000u64, 64;
        c16_q_wdec9 9, (1u128 << 64) + 0x3330, 64; c16_q_wdec16 16, u128::MAX - 3, 64; c16_q_wdec20 20, (1u128 << 96) + 0x3330, 64; }
