//! C12. Bounds: comparison and bit logic: u8 slices of 1..=4 elements and u32/u64 slices of 1..=3/2 elements on either side, all values (compared as
//! numbers, so trailing zero elements are immaterial). shrink: u8/u32, 1..=4 elements. int_to_arr: u8..u128 into u8/u16/u32/u64/u128 arrays
//! that hold the value. Comparison and bit logic of up to 8 u8, 6 u32, 5 u64 elements. arr_to_int: u8/u32 slices of 1..=3 elements into u16/u32/u64/u128.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use core::cmp::Ordering;
use numeric_bits::algos::*;
use numeric_bits::utils::*;

macro_rules! logic {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $max], [$t; $max]) = (any(), any());
        let (la, lb) = (1 + pick($max), 1 + pick($max));
        let (x, y) = (val(&a[..la]), val(&b[..lb]));
        match pick(5) {
            0 => {
                let o = ElementCmp::cmp(&a[..la], &b[..lb]);
                check!((o == Ordering::Less) == (x < y));
                check!((o == Ordering::Equal) == (x == y));
                check!((o == Ordering::Greater) == (x > y));
            }
            1 => { let r = ElementBitand::bitand(&a[..la], &b[..lb]); check!(val(&r) == x & y); }
            2 => { let r = ElementBitor::bitor(&a[..la], &b[..lb]); check!(val(&r) == x | y); }
            3 => { let r = ElementBitxor::bitxor(&a[..la], &b[..lb]); check!(val(&r) == x ^ y); }
            _ => { let mut m = a; ElementNot::not(&mut m[..la]); check!(val(&m[..la]) == !x & ones(la * <$t>::BITS as usize)); let mut k = la; while k < $max { check!(m[k] == a[k]); k += 1; } }
        }
    } )* } };
}
logic! { c12_q_logic_u8 u8, 4; c12_q_logic_u32 u32, 3; c12_q_logic_u64 u64, 2; }

macro_rules! shrink {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let a: [$t; $max] = any();
        let la = 1 + pick($max);
        let x = val(&a[..la]);
        if pick(2) == 0 {
            let r = IntSlice::shrink(&a[..la]);
            check!(val(r) == x && canon(r));
        } else {
            let v: Vec<$t> = a[..la].to_vec();
            let r = IntSlice::shrink(v);
            check!(val(&r) == x && canon(&r));
        }
    } )* } };
}
shrink! { c12_q_shrink_u8 u8, 4; c12_q_shrink_u32 u32, 4; }

macro_rules! to_arr {
    ($($n:ident $t:ty, $u:ty, $len:expr;)*) => { harness! { $( fn $n() {
        let v: $t = any();
        let r: [$u; $len] = int_to_arr(v);
        check!(fits(&r) && val(&r) == v as u128);
        let back: Option<$t> = arr_to_int(&r);
        if $len * <$u>::BITS <= <$t>::BITS { check!(back == Some(v)); }
    } )* } };
}
to_arr! { c12_q_arr_8_8 u8, u8, 2; c12_q_arr_16_8 u16, u8, 2; c12_q_arr_32_8 u32, u8, 4; c12_q_arr_64_32 u64, u32, 2; c12_q_arr_128_64 u128, u64, 2; c12_q_arr_128_32 u128, u32, 4;
          c12_q_arr_8_32 u8, u32, 1; c12_q_arr_64_128 u64, u128, 1; c12_q_arr_64_32p u64, u32, 4; c12_q_arr_16_64 u16, u64, 2; c12_q_arr_128_16 u128, u16, 8; }

macro_rules! to_int {
    ($($n:ident $t:ty, $u:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let a: [$t; $max] = any();
        let la = 1 + pick($max);
        let x = val(&a[..la]);
        let r: Option<$u> = arr_to_int(&a[..la]);
        cover!(r.is_some());
        match r {
            Some(v) => check!(v as u128 == x),
            // nothing that fits the destination is refused
            None => check!(x > <$u>::MAX as u128 || la * <$t>::BITS as usize > <$u>::BITS as usize),
        }
    } )* } };
}
to_int! { c12_q_int_8_16 u8, u16, 3; c12_q_int_8_32 u8, u32, 4; c12_q_int_32_64 u32, u64, 3; c12_q_int_32_16 u32, u16, 2; c12_q_int_32_128 u32, u128, 4; c12_q_int_64_8 u64, u8, 2; }

macro_rules! rev {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let a: [u8; $len] = any();
        let r = const_reverse(a);
        let mut i = 0;
        while i < $len { check!(r[i] == a[$len - 1 - i]); i += 1; }
    } )* } };
}
rev! { c12_q_rev_1 1; c12_q_rev_4 4; c12_q_rev_5 5; c12_q_rev_8 8; c12_q_rev_16 16; }

macro_rules! widecmp {
    ($($n:ident $t:ty, $la:expr, $lb:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        match pick(4) {
            0 => { merge(1); let o = ElementCmp::cmp(&a[..], &b[..]); merge(0); check!((o == core::cmp::Ordering::Less) == ltref(&a, &b)); check!((o == core::cmp::Ordering::Greater) == ltref(&b, &a)); }
            k => { const M: usize = if $la > $lb { $la } else { $lb };
                let r = match k { 1 => ElementBitand::bitand(&a[..], &b[..]), 2 => ElementBitor::bitor(&a[..], &b[..]), _ => ElementBitxor::bitxor(&a[..], &b[..]) };
                for i in 0..M { let (x, y) = (lim(&a, i), lim(&b, i)); check!(lim(&r, i) == match k { 1 => x & y, 2 => x | y, _ => x ^ y }); }
                for i in M..r.len() { check!(r[i] == 0); } }
        }
    } )* } };
}
widecmp! { c12_q_w8_88 u8, 8, 8; c12_q_w8_58 u8, 5, 8; c12_q_w8_72 u8, 7, 2; c12_q_w64_44 u64, 4, 4; c12_q_w64_35 u64, 3, 5; c12_q_w32_61 u32, 6, 1; }
