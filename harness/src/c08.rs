//! C08. Bounds: element-wise and bit-wise addition and subtraction; u8 slices of 1..=3 elements, u32 slices of 1..=3 elements and u64
//! slices of 1..=2 elements (in-place forms) on either side, all element values; bit-wise forms: u8, 1..=2 elements.
//! Element-wise forms on longer operands (8 by 8, 8 by 5, 4 by 8 u8; 4 by 4, 4 by 2, 1 by 4 u64; 5 by 3 u32; 6 by 6 u16), all values.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_bits::algos::*;

macro_rules! vecs {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $max], [$t; $max]) = (any(), any());
        let (la, lb) = (1 + pick($max), 1 + pick($max));
        let (x, y) = (val(&a[..la]), val(&b[..lb]));
        merge(1);
        if pick(2) == 0 {
            let r = ElementAdd::add(&a[..la], &b[..lb]);
            merge(0);
            check!(fits(&r) && val(&r) == x + y);
            check!(canon(&r));
        } else {
            let (r, neg) = ElementSub::sub(&a[..la], &b[..lb]);
            merge(0);
            check!(neg == (x < y));
            check!(val(&r) == if x < y { y - x } else { x - y });
            check!(canon(&r));
        }
    } )* } };
}
vecs! { c08_q_vec_u8 u8, 3; c08_q_vec_u32 u32, 3; }

macro_rules! inplace {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $max], [$t; $max]) = (any(), any());
        let (la, lb) = (1 + pick($max), 1 + pick($max));
        let (x, y) = (val(&a[..la]), val(&b[..lb]));
        let bits = la * <$t>::BITS as usize;
        let mut m = a;
        let (s, c) = x.overflowing_add(y);
        let over = c || s > ones(bits);
        let sum = s & ones(bits);
        let dif = x.wrapping_sub(y) & ones(bits);
        match pick(6) {
            0 => { let (r, f) = ElementAdd::add_overflowing(&mut m[..la], &b[..lb]); check!(val(r) == sum); check!(f == over); }
            1 => { match ElementAdd::add_checked(&mut m[..la], &b[..lb]) { Some(r) => check!(!over && val(r) == sum), None => check!(over) } }
            2 => { let r = ElementAdd::add_wrapping(&mut m[..la], &b[..lb]); check!(val(r) == sum); }
            3 => { let (r, f) = ElementSub::sub_overflowing(&mut m[..la], &b[..lb]); check!(val(r) == dif); check!(f == (x < y)); }
            4 => { match ElementSub::sub_checked(&mut m[..la], &b[..lb]) { Some(r) => check!(x >= y && val(r) == dif), None => check!(x < y) } }
            _ => { let r = ElementSub::sub_wrapping(&mut m[..la], &b[..lb]); check!(val(r) == dif); }
        }
        // the rest of the buffer is untouched
        let mut k = la;
        while k < $max { check!(m[k] == a[k]); k += 1; }
    } )* } };
}
inplace! { c08_q_inplace_u8 u8, 3; c08_q_inplace_u32 u32, 3; c08_q_inplace_u64 u64, 2; }

macro_rules! bitwise {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([$t; $max], [$t; $max]) = (any(), any());
        let (la, lb) = (1 + pick($max), 1 + pick($max));
        let (x, y) = (val(&a[..la]), val(&b[..lb]));
        let bits = la * <$t>::BITS as usize;
        match pick(3) {
            0 => { merge(1); let r = BitwiseAdd::add(&a[..la], &b[..lb]); merge(0); check!(val(&r) == x + y); }
            1 => { merge(1); let (r, neg) = BitwiseSub::sub(&a[..la], &b[..lb]); merge(0); check!(neg == (x < y)); check!(val(&r) == if x < y { y - x } else { x - y }); }
            _ => {
                merge(2);
                let mut m = a;
                let r: u128 = if lb == 1 { val(BitwiseAdd::add_in_place(&mut m[..la], &[b[0]])) } else { val(BitwiseAdd::add_in_place(&mut m[..la], &b)) };
                merge(0);
                let y = if lb == 1 { b[0] as u128 } else { val(&b) };
                check!(r == (x + y) & ones(bits));
            }
        }
    } )* } };
}
bitwise! { c08_q_bitwise_u8 u8, 2; c08_t_bitwise_u16 u16, 2; }

// longer operands, limb-wise reference
macro_rules! wide {
    ($($n:ident $t:ty, $la:expr, $lb:expr;)*) => { harness! { $( fn $n() {
        const M: usize = if $la > $lb { $la } else { $lb };
        let (a, b): ([$t; $la], [$t; $lb]) = (any(), any());
        match pick(5) {
            0 => { merge(1); let r = ElementAdd::add(&a[..], &b[..]); merge(0); let (e, _) = addref::<$t, { M + 1 }>(&a, &b); check!(same(&r, &e)); check!(canon(&r)); }
            1 => { merge(1); let (r, neg) = ElementSub::sub(&a[..], &b[..]); merge(0); let lt = ltref(&a, &b); check!(neg == lt);
                   let (e, f) = (subref::<$t, M>(&a, &b).0, subref::<$t, M>(&b, &a).0); check!(if lt { same(&r, &f) } else { same(&r, &e) }); check!(canon(&r)); }
            2 => { let mut m = a; merge(1); let (r, f) = ElementAdd::add_overflowing(&mut m[..], &b); merge(0); let (e, _) = addref::<$t, { M + 1 }>(&a, &b);
                   let mut over = false; for k in $la..=M { over |= e[k] != 0; } check!(same(r, &e[..$la])); check!(f == over); }
            3 => { let mut m = a; merge(1); let (r, f) = ElementSub::sub_overflowing(&mut m[..], &b); merge(0); let (e, _) = subref::<$t, M>(&a, &b); check!(same(r, &e[..$la])); check!(f == ltref(&a, &b)); }
            _ => { let mut m = a; merge(1); let r = ElementSub::sub_checked(&mut m[..], &b); merge(0); let (e, _) = subref::<$t, M>(&a, &b); match r { Some(r) => { check!(!ltref(&a, &b)); check!(same(r, &e[..$la])) } None => check!(ltref(&a, &b)) } }
        }
    } )* } };
}
wide! { c08_q_w8_88 u8, 8, 8; c08_q_w8_85 u8, 8, 5; c08_q_w8_48 u8, 4, 8; c08_q_w64_44 u64, 4, 4; c08_q_w64_42 u64, 4, 2; c08_q_w64_14 u64, 1, 4; c08_q_w32_53 u32, 5, 3; c08_q_w16_66 u16, 6, 6; c08_t_w8_cc u8, 12, 12; }
