//! C04. Bounds: none; every operand triple of u8, u16, u32, u64, usize and u128. The oracle forms the exact double-width value
//! (for u128: the four 64x64 partial products summed limb by limb with explicit carries).
use crate::vt::*;
use crate::*;
use numeric_traits::ops::widening::WideningMul;

macro_rules! w {
    ($($n:ident $t:ty, $w:ty;)*) => { harness! { $( fn $n() {
        let (a, b, c): ($t, $t, $t) = (any(), any(), any());
        let (lo, hi) = WideningMul::widening_mul(a, b, c);
        let e = a.hide() as $w * b.hide() as $w + c.hide() as $w;
        check!(lo == e as $t);
        check!(hi == (e >> <$t>::BITS) as $t);
    } )* } };
}
w! { c04_qb_u8 u8, u32; c04_qb_u16 u16, u32; c04_qb_u32 u32, u64; c04_qb_u64 u64, u128; c04_qb_usize usize, u128; }

fn limbs(a: u128, b: u128, c: u128) -> (u128, u128) {
    let (a0, a1, b0, b1) = (a as u64 as u128, a >> 64, b as u64 as u128, b >> 64);
    let (p, q, r, s) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
    let m = u64::MAX as u128;
    let l0 = (p & m) + (c & m);
    let l1 = (p >> 64) + (q & m) + (r & m) + (c >> 64) + (l0 >> 64);
    let l2 = (q >> 64) + (r >> 64) + (s & m) + (l1 >> 64);
    let l3 = (s >> 64) + (l2 >> 64);
    ((l0 & m) | (l1 << 64), (l2 & m) | (l3 << 64))
}
harness! {
    fn c04_qb_u128() {
        let (a, b, c): (u128, u128, u128) = (any(), any(), any());
        let (lo, hi) = WideningMul::widening_mul(a, b, c);
        let (el, eh) = limbs(a.hide(), b.hide(), c.hide());
        check!(lo == el);
        check!(hi == eh);
    }
    fn c04_q_u128_small() {
        // one factor of 8 bits: independent of how the product is decomposed
        let (a, b, c): (u128, u8, u128) = (any(), any(), any());
        let (lo, hi) = match pick(2) { 0 => WideningMul::widening_mul(a, b as u128, c), _ => WideningMul::widening_mul(b as u128, a, c) };
        let (el, eh) = limbs(a.hide(), b.hide() as u128, c.hide());
        check!(lo == el && hi == eh);
    }
}
