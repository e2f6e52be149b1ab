//! C15. Bounds: U<1>, U<2>, U<3>, U<4> and U<8>: all values for !, &, |, ^; shifts by every amount up to the bit length + 2 (usize) and by every U<N> amount
//! below 256 (U<7>, U<12>, U<16>, U<20>, U<33>: 7 to 12 amounts around the byte and word boundaries), in debug (amounts past the bit length panic) and release builds (amounts wrap modulo the bit length).
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_ints::U;

const DBG: bool = cfg!(debug_assertions);
fn v<const N: usize>(u: U<N>) -> u128 { val(&u.to_le_bytes()) }

macro_rules! bits {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (x, y) = (val(&a), val(&b));
        let (a, b) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        let bl = 8 * $len;
        let max = ones(bl);
        match pick(8) {
            0 => check!(v(!a) == !x & max),
            1 => check!(v(a & b) == x & y),
            2 => check!(v(a | b) == x | y),
            3 => check!(v(a ^ b) == x ^ y),
            4 => { let n = pick(bl + 3); panic_ok(DBG && n > bl); let r = a << n; check!(!(DBG && n > bl)); if n != bl { check!(v(r) == (x << (n % bl)) & max) } else if DBG { check!(v(r) == 0) } }
            5 => { let n = pick(bl + 3); panic_ok(DBG && n > bl); let r = a >> n; check!(!(DBG && n > bl)); if n != bl { check!(v(r) == x >> (n % bl)) } else if DBG { check!(v(r) == 0) } }
            6 => { let n = pick(if bl > 200 { 256 } else { bl + 3 }); let mut nb = [0u8; $len]; nb[0] = n as u8; let n_ = U::<$len>::from_le_bytes(nb); panic_ok(DBG && n > bl); let r = a << n_; check!(!(DBG && n > bl)); if n != bl { check!(v(r) == (x << (n % bl)) & max) } }
            _ => { let n = pick(if bl > 200 { 256 } else { bl + 3 }); let mut nb = [0u8; $len]; nb[0] = n as u8; let n_ = U::<$len>::from_le_bytes(nb); panic_ok(DBG && n > bl); let r = a >> n_; check!(!(DBG && n > bl)); if n != bl { check!(v(r) == x >> (n % bl)) } }
        }
    } )* } };
}
bits! { c15_qb_u1 1; c15_qb_u2 2; c15_qb_u3 3; c15_qb_u4 4; c15_qb_u8 8; c15_q_u5 5; c15_t_u16 16; }

harness! {
    // a huge amount never passes for a small one
    fn c15_q_huge() {
        let a: [u8; 3] = any();
        let n: usize = any();
        assume(n > 24);
        panic_ok(true);
        let r = if any() { U::<3>::from_le_bytes(a) << n } else { U::<3>::from_le_bytes(a) >> n };
        check!(false);
    }
}

// wide numbers, chosen amounts
macro_rules! wide {
    ($($n:ident $len:expr, [$($s:expr),*];)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (u, w) = (U::<$len>::from_le_bytes(a), U::<$len>::from_le_bytes(b));
        let amounts = [$($s),*];
        match pick(6) {
            0 => { let r = (!u).to_le_bytes(); for k in 0..$len { check!(r[k] == !a[k]); } }
            1 => { let r = (u & w).to_le_bytes(); for k in 0..$len { check!(r[k] == a[k] & b[k]); } }
            2 => { let r = (u | w).to_le_bytes(); for k in 0..$len { check!(r[k] == a[k] | b[k]); } }
            3 => { let r = (u ^ w).to_le_bytes(); for k in 0..$len { check!(r[k] == a[k] ^ b[k]); } }
            4 => { let n = amounts[pick(amounts.len())]; let r = (u << n).to_le_bytes(); for k in 0..$len { check!(r[k] as u128 == shlref(&a, n, k)); } }
            _ => { let n = amounts[pick(amounts.len())]; let r = (u >> n).to_le_bytes(); for k in 0..$len { check!(r[k] as u128 == shrref(&a, n, k)); } }
        }
    } )* } };
}
wide! { c15_q_w7 7, [0, 1, 7, 8, 15, 16, 31, 32, 33, 47, 48, 55]; c15_q_w12 12, [0, 1, 8, 31, 32, 60, 63, 64, 65, 72, 95]; c15_qb_w16 16, [0, 1, 7, 8, 63, 64, 65, 100, 120, 127];
        c15_q_w20 20, [0, 3, 64, 127, 128, 129, 159]; c15_qb_w33 33, [0, 1, 8, 64, 200, 255, 256, 257, 263]; }
