//! C11. Bounds: u8 slices of 1..=3 elements, u32 slices of 1..=2 and u64 slices of 1..=2 (in-place), all element values. Shift amounts: every
//! amount up to two elements past the end for the allocating forms, every usize for the checked forms, every amount below 4 times
//! the bit length for the wrapping forms. Sequences of 7 u8, 6 u16, 5 u32 and 4 u64, all values, 9 to 17 amounts around the element boundaries.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_bits::algos::*;

fn shl(v: u128, n: usize) -> u128 { if n >= 128 { 0 } else { v << n } }
fn shr(v: u128, n: usize) -> u128 { if n >= 128 { 0 } else { v >> n } }

macro_rules! vecs {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let a: [$t; $max] = any();
        let la = 1 + pick($max);
        let b = <$t>::BITS as usize;
        let x = val(&a[..la]);
        let n = pick(if (2 * la + 1) * b > 128 { 128 - la * b + 1 } else { (la + 1) * b + 1 });
        match pick(4) {
            0 => { let r = ElementShl::shl(&a[..la], n); check!(fits(&r) && val(&r) == shl(x, n)); check!(canon(&r)); }
            1 => { let r = ElementShr::shr(&a[..la], n); check!(fits(&r) && val(&r) == shr(x, n)); check!(canon(&r)); }
            2 => { merge(1); let r = BitwiseShl::shl(&a[..la], n); merge(0); check!(fits(&r) && val(&r) == shl(x, n)); }
            _ => { merge(1); let r = BitwiseShr::shr(&a[..la], n); merge(0); check!(fits(&r) && val(&r) == shr(x, n)); check!(canon(&r)); }
        }
    } )* } };
}
vecs! { c11_q_vec_u8 u8, 2; c11_t_vec_u8w u8, 4; c11_t_vec_u32 u32, 1; }

macro_rules! evecs {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let a: [$t; $max] = any();
        let b = <$t>::BITS as usize;
        let la = 1 + pick($max);
        let x = val(&a[..la]);
        let n = pick(if (2 * la + 1) * b > 128 { 128 - la * b + 1 } else { (la + 1) * b + 1 });
        if pick(2) == 0 { let r = ElementShl::shl(&a[..la], n); check!(fits(&r) && val(&r) == shl(x, n)); check!(canon(&r)); }
        else { let r = ElementShr::shr(&a[..la], n); check!(fits(&r) && val(&r) == shr(x, n)); check!(canon(&r)); }
    } )* } };
}
evecs! { c11_q_evec_u8 u8, 3; c11_q_evec_u32 u32, 1; c11_q_evec_u64 u64, 1; }

macro_rules! inplace {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let a: [$t; $max] = any();
        let la = 1 + pick($max);
        let bits = la * <$t>::BITS as usize;
        let x = val(&a[..la]);
        let mut m = a;
        let s = &mut m[..la];
        match pick(4) {
            0 => { let n = pick(4 * bits); let r = ElementShl::shl_wrapping(s, n); check!(val(r) == shl(x, n % bits) & ones(bits)); }
            1 => { let n = pick(4 * bits); let r = ElementShr::shr_wrapping(s, n); check!(val(r) == shr(x, n % bits)); }
            2 => {
                let n = if any() { pick(bits + 1) } else { let n: usize = any(); assume(n > bits); n };
                match ElementShl::shl_checked(s, n) { Some(r) => check!(n <= bits && val(r) == shl(x, n) & ones(bits)), None => check!(n > bits) }
            }
            _ => {
                let n = if any() { pick(bits + 1) } else { let n: usize = any(); assume(n > bits); n };
                match ElementShr::shr_checked(s, n) { Some(r) => check!(n <= bits && val(r) == shr(x, n)), None => check!(n > bits) }
            }
        }
        let mut k = la;
        while k < $max { check!(m[k] == a[k]); k += 1; }
    } )* } };
}
inplace! { c11_q_inp_u8 u8, 3; c11_q_inp_u32 u32, 2; c11_q_inp_u64 u64, 1; c11_t_inp_u8w u8, 5; c11_t_inp_u32w u32, 3; c11_t_inp_u64w u64, 2; }

// longer sequences, chosen amounts, limb-wise reference
macro_rules! wide {
    ($($n:ident $t:ty, $l:expr, [$($s:expr),*];)*) => { harness! { $( fn $n() {
        let a: [$t; $l] = any(); let amounts = [$($s),*]; let n = amounts[pick(amounts.len())]; let bits = $l * <$t>::BITS as usize;
        match pick(6) {
            0 => { let r = ElementShl::shl(&a[..], n); let m = $l + n / <$t>::BITS as usize + 1; for k in 0..m { check!(lim(&r, k) == shlref(&a, n, k)); } for k in m..r.len() { check!(r[k] == 0); } check!(canon(&r)); }
            1 => { let r = ElementShr::shr(&a[..], n); for k in 0..$l { check!(lim(&r, k) == shrref(&a, n, k)); } for k in $l..r.len() { check!(r[k] == 0); } check!(canon(&r)); }
            2 => { let mut m = a; let r = ElementShl::shl_wrapping(&mut m[..], n); for k in 0..$l { check!(lim(r, k) == shlref(&a, n % bits, k)); } }
            3 => { let mut m = a; let r = ElementShr::shr_wrapping(&mut m[..], n); for k in 0..$l { check!(lim(r, k) == shrref(&a, n % bits, k)); } }
            4 => { let mut m = a; match ElementShl::shl_checked(&mut m[..], n) { Some(r) => { check!(n <= bits); for k in 0..$l { check!(lim(r, k) == shlref(&a, n, k)); } } None => check!(n > bits) } }
            _ => { let mut m = a; match ElementShr::shr_checked(&mut m[..], n) { Some(r) => { check!(n <= bits); for k in 0..$l { check!(lim(r, k) == shrref(&a, n, k)); } } None => check!(n > bits) } }
        }
    } )* } };
}
wide! { c11_q_w8 u8, 7, [0, 1, 7, 8, 9, 16, 23, 24, 31, 32, 47, 48, 55, 56, 57, 64, 111]; c11_q_w64 u64, 4, [0, 1, 63, 64, 65, 127, 128, 191, 192, 255, 256, 257, 300]; c11_q_w32 u32, 5, [0, 31, 32, 33, 64, 95, 96, 127, 128, 159, 160, 161];
        c11_q_w16 u16, 6, [5, 16, 31, 48, 79, 80, 95, 96, 97]; }
