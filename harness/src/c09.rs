//! C09. Bounds: element-wise multiplication, allocating and in-place (overflowing, checked, wrapping): u8, u32 and u64 slices of 1 x 1, 2 x 1,
//! 1 x 2, 3 x 1 (u8) and 2 x 2 (u8; u32 allocating; u64 in-place) elements, all element values (other 2 x 2, 3 x 2, 3 x 3 in thorough); bit-wise multiplication: one u8 element by a 4-bit
//! factor and two elements by a 3-bit factor (all 8-bit factors in thorough). Longer operands: 3 x 3, 4 x 2, 2 x 4 (u8) with one free element in each factor, the others all zero or all ones (in thorough also 5 x 5 (u8), 3 x 3 (u16, u64), 3 x 2 (u32),
//! and 3 x 3, 4 x 2 (u64), 4 x 3 (u32), 5 x 5 (u16), 6 x 6 (u8) with one free element in one factor and constants in the other). Oracle: schoolbook column sums of exact partial products.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_bits::algos::*;

macro_rules! vecs {
    ($($n:ident $t:ty, $la:expr, $lb:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        merge(1);
        let r = ElementMul::mul(&a[..], &b[..]);
        merge(0);
        let e: [u128; $la + $lb] = mulref(&a, &b);
        check!(same(&r, &e));
        check!(canon(&r));
    } )* } };
}
vecs! { c09_q_vec8_11 u8, 1, 1; c09_q_vec8_21 u8, 2, 1; c09_q_vec8_12 u8, 1, 2; c09_q_vec8_22 u8, 2, 2; c09_q_vec8_31 u8, 3, 1;
        c09_q_vec32_11 u32, 1, 1; c09_q_vec32_21 u32, 2, 1; c09_q_vec32_22 u32, 2, 2; c09_q_vec64_11 u64, 1, 1; c09_q_vec64_21 u64, 2, 1; c09_q_vec64_12 u64, 1, 2; c09_t_vec64_22 u64, 2, 2;
        c09_t_vec8_32 u8, 3, 2; c09_t_vec8_33 u8, 3, 3; c09_t_vec64_32 u64, 3, 2; }

macro_rules! inplace {
    ($($n:ident $t:ty, $la:expr, $lb:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        let e: [u128; $la + $lb] = mulref(&a, &b);
        let mut over = false;
        let mut k = $la;
        while k < $la + $lb { over |= e[k] != 0; k += 1; }
        let mut m = a;
        match pick(3) {
            0 => { merge(2); let (r, f) = ElementMul::mul_overflowing(&mut m[..], &b); merge(0); check!(same(r, &e[..$la])); check!(f == over); }
            1 => { merge(2); let r = ElementMul::mul_wrapping(&mut m[..], &b); merge(0); check!(same(r, &e[..$la])); }
            _ => { merge(2); let r = ElementMul::mul_checked(&mut m[..], &b); merge(0); match r { Some(r) => { check!(!over); check!(same(r, &e[..$la])) } None => check!(over) } }
        }
    } )* } };
}
inplace! { c09_q_inp8_11 u8, 1, 1; c09_q_inp8_21 u8, 2, 1; c09_q_inp8_12 u8, 1, 2; c09_q_inp8_22 u8, 2, 2; c09_q_inp8_31 u8, 3, 1;
           c09_q_inp32_11 u32, 1, 1; c09_q_inp32_21 u32, 2, 1; c09_t_inp32_22 u32, 2, 2; c09_q_inp64_12 u64, 1, 2; c09_q_inp64_22 u64, 2, 2;
           c09_t_inp8_33 u8, 3, 3; c09_t_inp32_33 u32, 3, 3; }

macro_rules! bitwise {
    ($($n:ident $t:ty, $la:expr, $lb:expr, $m:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        assume(b[$lb - 1] <= $m);
        merge(1);
        let r = BitwiseMul::mul(&a[..], &b);
        merge(0);
        check!(fits(&r));
        check!(val(&r) == val(&a) * val(&b));
    } )* } };
}
bitwise! { c09_q_bit_11 u8, 1, 1, 15; c09_q_bit_21 u8, 2, 1, 7; c09_t_bit_11 u8, 1, 1, 255; }

// longer operands: one free element in each, the others all zero or all ones
macro_rules! wide {
    ($($n:ident $t:ty, $la:expr, $lb:expr;)*) => { harness! { $( fn $n() {
        let (mut a, mut b) = ([if pick(2) == 0 { 0 as $t } else { <$t>::MAX }; $la], [if pick(2) == 0 { 0 as $t } else { <$t>::MAX }; $lb]);
        a[[0, $la / 2, $la - 1][pick(3)]] = any(); b[if pick(2) == 0 { 0 } else { $lb - 1 }] = any();
        let e: [u128; $la + $lb] = mulref(&a, &b);
        if pick(2) == 0 {
            merge(1); let r = ElementMul::mul(&a[..], &b[..]); merge(0);
            check!(same(&r, &e)); check!(canon(&r));
        } else {
            let mut over = false; for k in $la..$la + $lb { over |= e[k] != 0; }
            let mut m = a; merge(2); let (r, f) = ElementMul::mul_overflowing(&mut m[..], &b); merge(0); check!(same(r, &e[..$la])); check!(f == over);
        }
    } )* } };
}
wide! { c09_q_w8_33 u8, 3, 3; c09_q_w8_42 u8, 4, 2; c09_q_w8_24 u8, 2, 4; c09_t_w8_55 u8, 5, 5; c09_t_w16_33 u16, 3, 3; c09_t_w32_32 u32, 3, 2; c09_t_w64_33 u64, 3, 3; }
// one free element, the other factor one of a few constants
macro_rules! konst {
    ($($n:ident $t:ty, $la:expr, $lb:expr;)*) => { harness! { $( fn $n() {
        const H: $t = 1 << (<$t>::BITS - 1);
        let mut a = [if pick(2) == 0 { 0 as $t } else { <$t>::MAX }; $la]; a[[0, $la / 2, $la - 1][pick(3)]] = any();
        let mut b = [match pick(3) { 0 => <$t>::MAX, 1 => H, _ => 0 }; $lb]; if pick(2) == 0 { b[$lb - 1] = 1; }
        let e: [u128; $la + $lb] = mulref(&a, &b);
        match pick(3) {
            0 => { merge(1); let r = ElementMul::mul(&a[..], &b[..]); merge(0); check!(same(&r, &e)); check!(canon(&r)); }
            1 => { merge(1); let r = ElementMul::mul(&b[..], &a[..]); merge(0); check!(same(&r, &e)); check!(canon(&r)); }
            _ => { let mut over = false; for k in $la..$la + $lb { over |= e[k] != 0; }
                let mut m = a; merge(2); let (r, f) = ElementMul::mul_overflowing(&mut m[..], &b); merge(0); check!(same(r, &e[..$la])); check!(f == over); }
        }
    } )* } };
}
konst! { c09_t_c64_33 u64, 3, 3; c09_t_c64_42 u64, 4, 2; c09_t_c32_43 u32, 4, 3; c09_t_c16_55 u16, 5, 5; c09_t_c8_66 u8, 6, 6; }
harness! {
    fn c09_q_bit_22() { // sparse second factor
        let (a, x): ([u8; 2], [u8; 2]) = (any(), any()); let b = [x[0] & 0x81, x[1] & 0x81];
        merge(1); let r = BitwiseMul::mul(&a[..], &b); merge(0);
        check!(fits(&r)); check!(val(&r) == val(&a) * val(&b)); }
    fn c09_q_bit_13() {
        let (a, x): ([u8; 1], [u8; 3]) = (any(), any()); let b = [x[0] & 1, x[1] & 2, x[2] & 0x80];
        merge(1); let r = BitwiseMul::mul(&a[..], &b); merge(0);
        check!(fits(&r)); check!(val(&r) == val(&a) * val(&b)); }
}
