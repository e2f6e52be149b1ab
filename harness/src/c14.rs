//! C14. Bounds: U<1> all values, U<2> and U<3> with the dividend below 2^10 (U<2> all dividends in thorough) and any divisor; U<16> with an
//! 8-bit dividend and divisor; pow: U<1> all bases with exponents 0..=8 and every exponent with base 0 or 1, U<2> exponents 0..=4 with 8-bit bases, U<3> with exponents 0..=3 and 6-bit bases.
//! U<3>, U<5>, U<8>, U<16>: dividends around the byte and word boundaries (5 patterns x 4 further bit patterns, 3 free low bits) by 16 x 4 divisors between 1 and 2^128 - 1.
//! Division and remainder in debug and release builds; division by zero must panic (operators) or give None (checked).
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_ints::U;
use numeric_traits::ops::checked::*;
use numeric_traits::ops::Pow;

const DBG: bool = cfg!(debug_assertions);
fn v<const N: usize>(u: U<N>) -> u128 { val(&u.to_le_bytes()) }

macro_rules! div {
    ($($n:ident $len:expr, $lim:expr, $dlim:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        assume(x <= $lim && y <= $dlim);
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        match pick(3) {
            0 => { panic_ok(y == 0); merge(2); let r = v(a / b); merge(0); check!(y != 0); check!(r as u32 == x as u32 / y as u32 && r <= x); }
            1 => { panic_ok(y == 0); merge(2); let r = v(a % b); merge(0); check!(y != 0); check!(r as u32 == x as u32 % y as u32 && r < y); }
            _ => { merge(2); let r = a.checked_div(b).map(|r| v(r)); merge(0); match r { Some(r) => { check!(y != 0); check!(r as u32 == x as u32 / y as u32 && r <= x) } None => check!(y == 0) } }
        }
    } )* } };
}
div! { c14_qb_div1 1, 255, 255; c14_qb_div2 2, 0x3ff, 0xffff; c14_q_div3 3, 0x3ff, 0xffffff; c14_q_div16 16, 63, 63; c14_t_div2 2, 0xffff, 0xffff; c14_t_div4 4, 0x3ff, 0xffff; }

macro_rules! pw {
    ($($n:ident $len:expr, $lim:expr, $e:expr;)*) => { harness! { $( fn $n() {
        let a: [u8; $len] = any();
        let x = val(&a);
        assume(x <= $lim);
        let e = pick($e + 1);
        let mut eb = [0u8; $len];
        eb[0] = e as u8;
        let max = ones(8 * $len);
        let mut want = 1u128;
        let mut over = false;
        let mut k = 0;
        while k < e { want *= x; over |= want > max; want &= max; k += 1; }
        // an intermediate overflow means the result overflows too, unless the base is 0
        panic_ok(DBG && over);
        merge(2);
        let r = U::<$len>::from_le_bytes(a).pow(U::<$len>::from_le_bytes(eb));
        merge(0);
        check!(!(DBG && over));
        check!(v(r) == want);
    } )* } };
}
pw! { c14_qb_pow1 1, 255, 4; c14_q_pow1w 1, 15, 9; c14_q_pow2 2, 255, 3; c14_q_pow3 3, 63, 3; }

harness! {
    fn c14_q_pow_unit() {
        let e: u8 = any();
        let x = pick(2) as u8;
        let r = U::<1>::from_u8(x).pow(U::from_u8(e));
        check!(r.as_u8() == if e == 0 { 1 } else { x });
    }
    fn c14_q_pow_unit3() {
        let e: [u8; 3] = any();
        let x = pick(2) as u8;
        let r = U::<3>::from_le_bytes([x, 0, 0]).pow(U::from_le_bytes(e));
        check!(v(r) == if val(&e) == 0 { 1 } else { x as u128 });
    }
}

macro_rules! near { ($($n:ident $len:expr, $i:expr, $k:expr;)*) => { harness! { $( fn $n() {
    let x: u8 = any(); assume(x < 8); let max = ones(8 * $len);
    let m = (NUMS[$i] ^ ((pick(4) as u128) << $k) ^ x as u128) & max;
    let y = (DENS[pick(16)] ^ pick(4) as u128) & max; assume(y != 0);
    let (mut a, mut b) = ([0u8; $len], [0u8; $len]);
    let mut i = 0; while i < $len { a[i] = (m >> (8 * i)) as u8; b[i] = (y >> (8 * i)) as u8; i += 1; }
    let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
    let q = if pick(2) == 0 { Some(a / b) } else { a.checked_div(b) }; check!(q.is_some());
    check!(divided(m, y, v(q.unwrap()), v(a % b)));
} )* } } }
near! { c14_q_near8a 8, 0, 29; c14_q_near8b 8, 1, 55; c14_q_near8c 8, 3, 62; c14_q_near16a 16, 3, 63; c14_q_near16b 16, 4, 63; c14_q_near16c 16, 6, 95; c14_q_near16d 16, 8, 120; c14_q_near16e 16, 9, 126; c14_q_near5 5, 9, 38; c14_q_near3 3, 9, 22; }
