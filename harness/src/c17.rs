//! C17. Bounds: I<1>, I<2>, I<3>, I<4>, I<5>, I<7>, I<8>, I<9>, I<12>, I<15>: all value pairs for + - (wrapping), neg, abs, order, equality, sign predicates, bounds and bit logic;
//! I<1>, I<2>, I<3> all value pairs for * (wrapping); division and remainder I<1> all pairs, I<2> with magnitudes of the dividend below 2^9 (all in thorough).
//! I<3>, I<4>, I<8>, I<9>, I<16>: dividends around the byte and word boundaries (4 bit patterns, 3 free low bits; negated: 3 patterns of the low bits) by 16 x 4 divisors up to 2^128 - 1, all signs.
//! A value of I<N> is read as N two's complement bytes, little-endian, the representation its documentation states.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use core::cmp::Ordering;
use numeric_ints::I;
use numeric_traits::class::*;
use numeric_traits::identity::*;

fn mk<const N: usize>(b: [u8; N]) -> I<N> { assert!(size_of::<I<N>>() == N); unsafe { core::mem::transmute_copy(&b) } }
fn by<const N: usize>(i: I<N>) -> [u8; N] { unsafe { core::mem::transmute_copy(&i) } }
/// signed value
fn sv<const N: usize>(b: &[u8; N]) -> i128 { let k = 128 - 8 * N as u32; ((val(b) << k) as i128) >> k }
fn v<const N: usize>(i: I<N>) -> i128 { sv(&by(i)) }

macro_rules! arith {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (x, y) = (sv(&a), sv(&b));
        let (a, b) = (mk::<$len>(a), mk::<$len>(b));
        let k = 128 - 8 * $len as u32;
        let wrap = |e: i128| ((e as u128) << k) as i128 >> k;
        match pick(10) {
            0 => check!(v(a + b) == wrap(x + y)),
            1 => check!(v(a - b) == wrap(x - y)),
            2 => check!(v(-a) == wrap(-x)),
            3 => check!(v(a.abs()) == wrap(if x < 0 { -x } else { x })),
            4 => { let o = Ord::cmp(&a, &b); check!((o == Ordering::Less) == (x < y)); check!((o == Ordering::Greater) == (x > y)); check!(PartialOrd::partial_cmp(&a, &b) == Some(o)); }
            5 => { check!((a == b) == (x == y)); check!((a < b) == (x < y)); check!((a >= b) == (x >= y)); }
            6 => { check!(a.is_positive() == (x >= 0)); check!(a.is_negative() == (x < 0)); check!(a.is_zero() == (x == 0)); check!(a.is_one() == (x == 1)); }
            7 => { check!(v(I::<$len>::zero()) == 0 && v(I::<$len>::one()) == 1); check!(v(I::<$len>::min_value()) <= x && x <= v(I::<$len>::max_value())); check!(v(I::<$len>::min_positive()) == 1 && v(I::<$len>::max_negative()) == -1); }
            8 => { check!(v(!a) == !x); check!(v(a & b) == x & y); }
            _ => { check!(v(a | b) == x | y); check!(v(a ^ b) == x ^ y); }
        }
    } )* } };
}
arith! { c17_qb_i1 1; c17_qb_i2 2; c17_qb_i3 3; c17_qb_i4 4; c17_qb_i8 8; }

macro_rules! mul {
    ($($n:ident $len:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let e: [u128; $len] = mulref(&a, &b);
        merge(2);
        let r = mk::<$len>(a) * mk::<$len>(b);
        merge(0);
        check!(same(&by(r), &e));
    } )* } };
}
mul! { c17_q_mul1 1; c17_q_mul2 2; c17_q_mul3 3; c17_t_mul4 4; }

macro_rules! div {
    ($($n:ident $len:expr, $lim:expr, $dlim:expr;)*) => { harness! { $( fn $n() {
        let (a, b): ([u8; $len], [u8; $len]) = (any(), any());
        let (x, y) = (sv(&a), sv(&b));
        assume(x >= -$lim && x <= $lim && y >= -$dlim && y <= $dlim);
        let (a, b) = (mk::<$len>(a), mk::<$len>(b));
        let k = 32 - 8 * $len as u32;
        panic_ok(y == 0);
        if pick(2) == 0 {
            merge(2); let r = v(a / b); merge(0);
            check!(y != 0);
            // MIN / -1 wraps
            let q = (x as i32).wrapping_div(y as i32);
            check!(r as i32 == (q << k) >> k);
        } else {
            merge(2); let r = v(a % b); merge(0);
            check!(y != 0);
            check!(r as i32 == (x as i32).wrapping_rem(y as i32));
        }
    } )* } };
}
div! { c17_q_div1 1, 128, 128; c17_q_div2 2, 0x1ff, 0x8000; c17_t_div2 2, 0x8000, 0x8000; }

arith! { c17_q_i5 5; c17_q_i7 7; c17_q_i9 9; c17_q_i12 12; c17_q_i15 15; }

// division around the byte and word boundaries
macro_rules! near { ($($n:ident $len:expr, $i:expr, $k:expr;)*) => { harness! { $( fn $n() {
    let neg = pick(2) == 1; let l: u8 = if neg { pick(3) as u8 } else { any() }; assume(l < 8); let max = ones(8 * $len); let sh = 128 - 8 * $len as u32;
    let m = (NUMS[$i] ^ ((pick(4) as u128) << $k) ^ l as u128) & max;
    let y = (DENS[pick(16)] ^ pick(4) as u128) & max; assume(y != 0);
    let (m, y) = (if neg { m.wrapping_neg() & max } else { m & max >> 1 }, if pick(2) == 0 { y } else { y.wrapping_neg() & max });
    let (a, b) = (mk::<$len>(core::array::from_fn(|i| (m >> (8 * i)) as u8)), mk::<$len>(core::array::from_fn(|i| (y >> (8 * i)) as u8)));
    let (x, z) = ((m << sh) as i128 >> sh, (y << sh) as i128 >> sh);
    let (q, r) = (v(a / b), v(a % b));
    check!(divided(x.unsigned_abs(), z.unsigned_abs(), q.unsigned_abs(), r.unsigned_abs()));
    check!(r == 0 || (r < 0) == (x < 0));
    check!(q == 0 || q == i128::MIN >> sh || (q < 0) == ((x < 0) != (z < 0))); // MIN / -1 wraps
} )* } } }
near! { c17_q_near3 3, 9, 22; c17_q_near4 4, 0, 30; c17_q_near8a 8, 2, 61; c17_q_near8b 8, 3, 61; c17_q_near9 9, 4, 69; c17_q_near16a 16, 6, 94; c17_q_near16b 16, 8, 125; c17_q_near16c 16, 9, 126; }
