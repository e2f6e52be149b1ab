//! C24. Bounds: left shift of BigInts of one limb and either sign by every amount 0..=130, of two limbs by every amount 0..=65, of 32-bit values by 8 amounts up to 256, and by amounts of every
//! primitive integer type and BigInt; right shift of non-negative BigInts of one limb by every amount 0..=66, of 2 limbs by 0..=130, of 3 limbs by 0..=192 and 1000; and, or, xor of non-negative BigInts of up to 3 limbs (all values), in every
//! by-value and by-reference form. Negative operands of the bit operations and of right shift are not claimed.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_traits::cast::*;
use numeric_traits::class::Signed;

fn mk(neg: bool, m: u128) -> BigInt { let b = BigInt::from(m); if neg { -b } else { b } }
fn isu(b: &BigInt, v: u128) -> bool { u128::try_from(b).ok() == Some(v) }
fn shl_is(r: BigInt, n: bool, m: u128, s: u32) {
    check!(r.is_negative() == (n && m != 0));
    let r = r.abs();
    let lo = if s >= 128 { 0 } else { m << s };
    let hi = if s == 0 { 0 } else if s >= 128 { m << (s - 128) } else { m >> (128 - s) };
    check!(u128::truncate_from(r.clone()) == lo);
    let h = r >> 128u8;
    check!(isu(&h, hi));
}
harness! {
    fn c24_q_shl64() { let (n, m): (bool, u64) = (any(), any()); let s = pick(131) as u32; let r = mk(n, m as u128) << s; shl_is(r, n, m as u128, s); }
    fn c24_q_shl128() { let m: u128 = any(); let s = pick(66) as u32; let r = mk(false, m) << s; shl_is(r, false, m, s); }
    fn c24_q_shl_big() { let (n, m): (bool, u64) = (any(), any()); let s = pick(4) as u32 * 21 + 64; let r = mk(n, m as u128) << BigInt::from(s); shl_is(r, n, m as u128, s); }
    fn c24_q_shr64() { let m: u64 = any(); let s = pick(67) as u32; let r = mk(false, m as u128) >> s; check!(isu(&r, if s > 63 { 0 } else { m as u128 >> s })); }
    fn c24_q_shr128() { let m: u128 = any(); let s = pick(131) as u32; let r = mk(false, m) >> s; check!(isu(&r, if s > 127 { 0 } else { m >> s })); }
    fn c24_q_shforms() { let m: u32 = any(); let s = pick(3) as u32 * 13; let (a, b) = (BigInt::from(m), BigInt::from(s));
        let (l, r) = ((m as u128) << s, m as u128 >> s);
        match pick(8) { 0 => check!(isu(&(&a << &b), l)), 1 => check!(isu(&(&a << b), l)), 2 => check!(isu(&(a << &b), l)), 3 => check!(isu(&(a << b), l)),
            4 => check!(isu(&(&a >> &b), r)), 5 => check!(isu(&(&a >> b), r)), 6 => check!(isu(&(a >> &b), r)), _ => check!(isu(&(a >> b), r)) } }
    fn c24_q_logic() { let (x, y): (u128, u128) = (any(), any()); let (a, b) = (BigInt::from(x), BigInt::from(y));
        match pick(3) { 0 => check!(isu(&(a & b), x & y)), 1 => check!(isu(&(a | b), x | y)), _ => check!(isu(&(a ^ b), x ^ y)) } }
    fn c24_q_logicforms() { let (x, y): (u64, u64) = (any(), any()); let (a, b) = (BigInt::from(x), BigInt::from(y));
        let (n, o, e) = ((x & y) as u128, (x | y) as u128, (x ^ y) as u128);
        match pick(9) { 0 => check!(isu(&(&a & &b), n)), 1 => check!(isu(&(&a | &b), o)), 2 => check!(isu(&(&a ^ &b), e)),
            3 => check!(isu(&(&a & b), n)), 4 => check!(isu(&(&a | b), o)), 5 => check!(isu(&(&a ^ b), e)),
            6 => check!(isu(&(a & &b), n)), 7 => check!(isu(&(a | &b), o)), _ => check!(isu(&(a ^ &b), e)) } }
    fn c24_q_logic3() { let (x, y): (u128, u64) = (any(), any()); assume(x >> 64 != 0); // 3 limbs against 1
        let (a, b) = (BigInt::from(x) << 64u8, BigInt::from(y));
        let (r, lo) = match pick(3) { 0 => { check!(isu(&(a & b), 0)); return } 1 => (a | b, y), _ => (a ^ b, y) };
        check!(u128::truncate_from(r.clone()) == (x << 64) | lo as u128); check!(isu(&(r >> 128u8), x >> 64)); }
}
macro_rules! prim { ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
    let m: u32 = any(); let s = pick(4) * 11;
    if any() { check!(isu(&(BigInt::from(m) << s as $t), (m as u128) << s)) } else { check!(isu(&(BigInt::from(m) >> s as $t), (m as u64 >> s) as u128)) }
} )* } } }
prim! { c24_q_p_u8 u8; c24_q_p_i8 i8; c24_q_p_u16 u16; c24_q_p_i16 i16; c24_q_p_u32 u32; c24_q_p_i32 i32; c24_q_p_u64 u64; c24_q_p_i64 i64; c24_q_p_usize usize; c24_q_p_isize isize; c24_q_p_u128 u128; c24_q_p_i128 i128; }

/// three limb value from its high limb and low 128 bits
fn mk3(h: u64, l: u128) -> BigInt { (BigInt::from((h as u128) << 64 | l >> 64) << 64u8) + BigInt::from(l as u64) }
fn is3(r: BigInt, h: u128, l: u128) { check!(u128::truncate_from(r.clone()) == l); check!(isu(&(r >> 128u8), h)); }
harness! {
    fn c24_q_shr192() { let (h, l): (u64, u128) = (any(), any()); assume(h != 0); let s = 1 + pick(191) as u32;
        let r = mk3(h, l) >> s;
        if s >= 128 { check!(isu(&r, (h >> (s - 128)) as u128)) } else { is3(r, h as u128 >> s, l >> s | (h as u128) << (128 - s)) } }
    fn c24_q_shr192_0() { let (h, l): (u64, u128) = (any(), any()); assume(h != 0); match pick(3) { 0 => is3(mk3(h, l) >> 0u8, h as u128, l), 1 => check!(isu(&(mk3(h, l) >> 192u8), 0)), _ => check!(isu(&(mk3(h, l) >> 1000u16), 0)) } }
    fn c24_q_shl_far() { let (n, m): (bool, u32) = (pick(2) == 1, any()); assume(m != 0); let s = [126, 128, 129, 160, 191, 192, 193, 256][pick(8)] as u32;
        let r = mk(n, m as u128) << s; check!(r.is_negative() == n); let r = r.abs();
        // bits 128.. of it, as a 256-bit window above s - s % 64
        let w = s / 64 * 64; check!(u64::truncate_from(r.clone()) == 0); let t = r >> w; check!(isu(&t, (m as u128) << (s - w))); }
    fn c24_q_logic32() { let (h, l): (u64, u128) = (any(), any()); let y: u128 = any(); assume(h != 0 && y >> 64 != 0); let (a, b) = (mk3(h, l), BigInt::from(y)); let sw = pick(2) == 1;
        let (a, b) = if sw { (b, a) } else { (a, b) };
        match pick(3) { 0 => check!(isu(&(a & b), l & y)), 1 => is3(a | b, h as u128, l | y), _ => is3(a ^ b, h as u128, l ^ y) } }
    fn c24_q_logic33() { let (h, l): (u64, u128) = (any(), any()); let (g, y): (u64, u128) = (any(), any()); assume(h != 0 && g != 0); let (a, b) = (mk3(h, l), mk3(g, y));
        match pick(3) { 0 => is3(a & b, (h & g) as u128, l & y), 1 => is3(a | b, (h | g) as u128, l | y), _ => is3(a ^ b, (h ^ g) as u128, l ^ y) } }
}
