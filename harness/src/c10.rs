//! C10. Bounds: bit-wise long division (allocating and in-place) of u8 slices: 1 by 1 element all values; 2 by 1, 1 by 2 and 2 by 2 elements with
//! the dividend below 2^10 (quick) or unrestricted (thorough); u32/u64: one element, dividend below 2^8 shifted to any byte position's divisor.
//! Element-wise long division: u8, 1 by 1 with dividend below 2^6, 1 by 2 below 2^5, 2 by 2 with both dividend elements below 2 (it iterates once per unit of the quotient; larger in thorough).
//! Long operands: u64 2 by 2 and 2 by 1, u32 4 by 2 and 3 by 3, u16 4 by 3, u8 5 by 3 and 9 by 9 elements: dividends around the element boundaries (4 bit patterns, 3 free low bits) by 16 x 4 divisors between 1 and 2^128 - 1.
//! Scratch buffers are zeroed and as long as the dividend, as every caller passes them.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_bits::algos::*;

macro_rules! dv {
    ($($n:ident $t:ty, $la:expr, $lb:expr, $lim:expr, $dlim:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        assume(x <= $lim && y <= $dlim);
        panic_ok(y == 0);
        merge(1);
        let (q, r) = BitwiseDiv::div_long(&a[..], &b[..]);
        merge(0);
        check!(y != 0);
        let (q, r) = (val(&q), val(&r));
        check!(r < y);
        check!(q <= x);
        check!(q as u32 * y as u32 + r as u32 == x as u32);
    } )* } };
}
dv! { c10_q_vec_11 u8, 1, 1, 255, 255; c10_q_vec_21 u8, 2, 1, 0x3ff, 255; c10_q_vec_12 u8, 1, 2, 255, 0xffff; c10_q_vec_22 u8, 2, 2, 0x3ff, 0xffff; c10_q_vec32_11 u32, 1, 1, 255, 255;
      c10_t_vec_21 u8, 2, 1, 0xffff, 255; c10_t_vec_22 u8, 2, 2, 0xffff, 0xffff; c10_t_vec_31 u8, 3, 1, 0xfff, 255; }

macro_rules! inplace {
    ($($n:ident $t:ty, $la:expr, $lb:expr, $lim:expr, $dlim:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        assume(x <= $lim && y <= $dlim);
        let mut m = a;
        let mut s = [0 as $t; if $la > $lb { $la } else { $lb }];
        let k = pick(6);
        // the remainder is copied back, so it must have the dividend's length
        assume(k < 3 || $la >= $lb);
        panic_ok(k % 3 != 0 && y == 0);
        merge(2);
        let res: Option<u128> = match k {
            0 => BitwiseDiv::div_long_checked(&mut m[..], &b[..], &mut s).map(|r| val(r)),
            1 => Some(val(BitwiseDiv::div_long_wrapping(&mut m[..], &b[..], &mut s))),
            2 => { let (r, f) = BitwiseDiv::div_long_overflowing(&mut m[..], &b[..], &mut s); check!(!f); Some(val(r)) }
            3 => BitwiseDiv::rem_long_checked(&mut m[..], &b[..], &mut s).map(|r| val(r)),
            4 => Some(val(BitwiseDiv::rem_long_wrapping(&mut m[..], &b[..], &mut s))),
            _ => { let (r, f) = BitwiseDiv::rem_long_overflowing(&mut m[..], &b[..], &mut s); check!(!f); Some(val(r)) }
        };
        merge(0);
        match res {
            None => check!(y == 0),
            Some(r) => {
                check!(y != 0);
                if k < 3 { check!(r as u32 == x as u32 / y as u32) } else { check!(r as u32 == x as u32 % y as u32) }
            }
        }
    } )* } };
}
inplace! { c10_q_inp_11 u8, 1, 1, 255, 255; c10_q_inp_21 u8, 2, 1, 0xff, 255; c10_q_inp_12 u8, 1, 2, 63, 0xffff; c10_t_inp_22 u8, 2, 2, 0x3ff, 0xffff; }

macro_rules! elem {
    ($($n:ident $t:ty, $la:expr, $lb:expr, $lim:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        assume(a[$la - 1] <= $lim);
        assume($la == 1 || a[0] <= $lim);
        panic_ok(y == 0);
        let (q, r) = ElementDiv::div_long(&a[..], &b[..]);
        check!(y != 0);
        check!(canon(&q) && canon(&r));
        let (q, r) = (val(&q), val(&r));
        check!(r < y);
        check!(q <= x);
        check!(q as u32 * y as u32 + r as u32 == x as u32);
    } )* } };
}
elem! { c10_q_elem_11 u8, 1, 1, 63; c10_q_elem_12 u8, 1, 2, 31; c10_q_elem_22 u8, 2, 2, 1; c10_t_elem_11 u8, 1, 1, 255; c10_t_elem_22w u8, 2, 2, 2; }

// operands around the element boundaries: constants with free low bits
fn limbs<T: Limb, const N: usize>(x: u128, w: usize, f: fn(u128) -> T) -> [T; N] { core::array::from_fn(|i| f(if i * w < 128 { x >> (i * w) } else { 0 })) }
macro_rules! near {
    ($($n:ident $t:ty, $la:expr, $lb:expr, $i:expr, $k:expr;)*) => { harness! { $( fn $n() {
        const W: usize = 8 * size_of::<$t>();
        let x: u8 = any(); assume(x < 8);
        let m = (NUMS[$i] ^ ((pick(4) as u128) << $k) ^ x as u128) & ones(W * $la);
        let y = (DENS[pick(16)] ^ pick(4) as u128) & ones(W * $lb); assume(y != 0);
        let (a, b): ([$t; $la], [$t; $lb]) = (limbs(m, W, |v| v as $t), limbs(y, W, |v| v as $t));
        if pick(2) == 0 {
            let (q, r) = BitwiseDiv::div_long(&a[..], &b[..]);
            check!(divided(m, y, val(&q), val(&r)));
        } else {
            let (mut q, mut r) = (a, a); let (mut s, mut t) = ([0 as $t; $la], [0 as $t; $la]);
            let q = val(BitwiseDiv::div_long_wrapping(&mut q[..], &b[..], &mut s));
            let r = val(BitwiseDiv::rem_long_wrapping(&mut r[..], &b[..], &mut t));
            check!(divided(m, y, q, r));
        }
    } )* } };
}
near! { c10_q_near64a u64, 2, 2, 3, 62; c10_q_near64b u64, 2, 1, 4, 63; c10_q_near64c u64, 2, 2, 9, 126; c10_q_near32a u32, 4, 2, 6, 94; c10_q_near32b u32, 3, 3, 9, 95; c10_q_near16 u16, 4, 3, 9, 47; c10_q_near8a u8, 5, 3, 9, 38; c10_q_near8b u8, 9, 9, 4, 63; }
