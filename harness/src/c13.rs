//! C13. Bounds: U<1>, U<2>, U<3>, U<4>, U<8> and U<16> for addition and subtraction, all values; multiplication U<1>, U<2> and U<3>, all values (U<4>
//! in thorough). Operators in a debug build (panic on overflow) and in a release build (wrap), checked, wrapping and saturating forms.
//! U<5>, U<7>, U<9>, U<12>, U<20>, U<32>: addition and subtraction, all values. Multiplication of U<4>, U<5> with one free byte in each factor (others all zero or all ones), of U<8> (U<9>, U<16> in thorough) with
//! one free byte in one factor. Multiplication's oracle: schoolbook column sums of exact byte products.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_ints::U;
use numeric_traits::ops::checked::*;
use numeric_traits::ops::saturating::*;
use numeric_traits::ops::wrapping::*;

const DBG: bool = cfg!(debug_assertions);
fn v<const N: usize>(u: U<N>) -> u128 { val(&u.to_le_bytes()) }

macro_rules! addsub {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        let max = ones(8 * $len);
        let (s, c) = x.overflowing_add(y);
        let over = c || s > max;
        let (s, d) = (s & max, x.wrapping_sub(y) & max);
        match pick(8) {
            0 => { panic_ok(DBG && over); let r = a + b; check!(!(DBG && over)); check!(v(r) == s); }
            1 => { panic_ok(DBG && x < y); let r = a - b; check!(!(DBG && x < y)); check!(v(r) == d); }
            2 => match a.checked_add(b) { Some(r) => { check!(!over); check!(v(r) == s) } None => check!(over) },
            3 => match a.checked_sub(b) { Some(r) => { check!(x >= y); check!(v(r) == d) } None => check!(x < y) },
            4 => check!(v(a.wrapping_add(b)) == s),
            5 => check!(v(a.wrapping_sub(b)) == d),
            6 => check!(v(a.saturating_add(b)) == if over { max } else { s }),
            _ => check!(v(a.saturating_sub(b)) == if x < y { 0 } else { d }),
        }
    } )* } };
}
addsub! { c13_qb_as1 1; c13_qb_as2 2; c13_qb_as3 3; c13_qb_as4 4; c13_qb_as8 8; c13_q_as16 16; }

macro_rules! mul {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let e: [u128; 2 * $len] = mulref(&a, &b);
        let mut over = false;
        let mut k = $len;
        while k < 2 * $len { over |= e[k] != 0; k += 1; }
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        let e = &e[..$len];
        match pick(3) {
            0 => { panic_ok(DBG && over); merge(2); let r = a * b; merge(0); check!(!(DBG && over)); check!(same(&r.to_le_bytes(), e)); }
            1 => { merge(2); let r = a.checked_mul(b); merge(0); match r { Some(r) => { check!(!over); check!(same(&r.to_le_bytes(), e)) } None => check!(over) } }
            _ => { merge(2); let r = a.saturating_mul(b); merge(0); if over { check!(r.to_le_bytes() == [255u8; $len]) } else { check!(same(&r.to_le_bytes(), e)) } }
        }
    } )* } };
}
mul! { c13_qb_mul1 1; c13_qb_mul2 2; c13_qb_mul3 3; c13_t_mul4 4; }

// wider than the reference integers: byte-wise reference
macro_rules! wide {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (s, over) = addref::<u8, $len>(&a, &b); let (d, under) = subref::<u8, $len>(&a, &b);
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        match pick(6) {
            0 => { panic_ok(DBG && over); merge(1); let r = a + b; merge(0); check!(!(DBG && over)); check!(same(&r.to_le_bytes(), &s)); }
            1 => { panic_ok(DBG && under); merge(1); let r = a - b; merge(0); check!(!(DBG && under)); check!(same(&r.to_le_bytes(), &d)); }
            2 => match a.checked_add(b) { Some(r) => { check!(!over); check!(same(&r.to_le_bytes(), &s)) } None => check!(over) },
            3 => match a.checked_sub(b) { Some(r) => { check!(!under); check!(same(&r.to_le_bytes(), &d)) } None => check!(under) },
            4 => { merge(1); let r = a.wrapping_add(b); let q = a.wrapping_sub(b); merge(0); check!(same(&r.to_le_bytes(), &s)); check!(same(&q.to_le_bytes(), &d)); }
            _ => { merge(1); let r = a.saturating_add(b).to_le_bytes(); let q = a.saturating_sub(b).to_le_bytes(); merge(0); check!(if over { r == [255; $len] } else { same(&r, &s) }); check!(if under { q == [0; $len] } else { same(&q, &d) }); }
        }
    } )* } };
}
wide! { c13_q_w5 5; c13_q_w7 7; c13_q_w9 9; c13_q_w12 12; c13_q_w20 20; c13_q_w32 32; }
// multiplication of wide numbers: one free byte in each factor, the others all zero or all ones
macro_rules! wmul {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (mut a, mut b) = ([if pick(2) == 0 { 0u8 } else { 255 }; $len], [if pick(2) == 0 { 0u8 } else { 255 }; $len]);
        a[[0, 1, $len - 1][pick(3)]] = any(); b[[0, $len / 2, $len - 1][pick(3)]] = any();
        let e: [u128; 2 * $len] = mulref(&a, &b);
        let mut over = false;
        for k in $len..2 * $len { over |= e[k] != 0; }
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        let e = &e[..$len];
        if pick(2) == 0 { panic_ok(DBG && over); merge(2); let r = a * b; merge(0); check!(!(DBG && over)); check!(same(&r.to_le_bytes(), e)); }
        else { merge(2); let r = a.checked_mul(b); merge(0); match r { Some(r) => { check!(!over); check!(same(&r.to_le_bytes(), e)) } None => check!(over) } }
    } )* } };
}
wmul! { c13_q_wmul4 4; c13_q_wmul5 5; c13_t_wmul8 8; c13_t_wmul16 16; }
macro_rules! cmul {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let mut a = [if pick(2) == 0 { 0u8 } else { 255 }; $len]; a[[0, 1, $len / 2, $len - 1][pick(4)]] = any();
        let mut b = [[0u8, 255, 128][pick(3)]; $len]; if pick(2) == 0 { b[0] = 1; b[$len - 1] = 0; }
        let e: [u128; 2 * $len] = mulref(&a, &b);
        let mut over = false;
        for k in $len..2 * $len { over |= e[k] != 0; }
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        let e = &e[..$len];
        match pick(3) {
            0 => { panic_ok(DBG && over); merge(2); let r = a * b; merge(0); check!(!(DBG && over)); check!(same(&r.to_le_bytes(), e)); }
            1 => { panic_ok(DBG && over); merge(2); let r = b * a; merge(0); check!(!(DBG && over)); check!(same(&r.to_le_bytes(), e)); }
            _ => { merge(2); let r = a.checked_mul(b); merge(0); match r { Some(r) => { check!(!over); check!(same(&r.to_le_bytes(), e)) } None => check!(over) } }
        }
    } )* } };
}
cmul! { c13_q_cmul8 8; c13_t_cmul9 9; c13_t_cmul16 16; }
