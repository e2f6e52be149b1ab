//! C20. Bounds: addition, subtraction and negation of BigInts: all signed 64-bit pairs (inline and interned, one and two limb results), all sign and
//! magnitude pairs with 128-bit magnitudes (up to 3 limb results), three limb operands (any 128-bit magnitude shifted left by 64) with one, two and three limb operands in either order and all signs; all pairs of full three limb operands of either sign; four limbs plus one limb; every by-value, by-reference, assigning and primitive-operand form for 64-bit values.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_traits::cast::*;
use numeric_traits::class::Signed;

fn mk(neg: bool, m: u128) -> BigInt { let b = BigInt::from(m); if neg { -b } else { b } }
fn is(b: &BigInt, v: i128) -> bool { i128::try_from(b).ok() == Some(v) }

/// (sign, carry bit, low 128 bits) of the exact sum
fn sum(n1: bool, m1: u128, n2: bool, m2: u128) -> (bool, bool, u128) {
    if n1 == n2 { let (r, c) = m1.overflowing_add(m2); (n1, c, r) }
    else if m1 >= m2 { (n1, false, m1 - m2) } else { (n2, false, m2 - m1) }
}
/// b equals the given value and is in canonical sign form
fn eqv(b: BigInt, n: bool, c: bool, r: u128) {
    check!(b.is_negative() == (n && (c || r != 0)));
    let m = b.abs();
    if c { let back = m - (BigInt::from(1u128 << 127) + BigInt::from(1u128 << 127)); check!(u128::try_from(&back).ok() == Some(r)); }
    else { check!(u128::try_from(&m).ok() == Some(r)); }
}
harness! {
    fn c20_q_add64() { let (x, y): (i64, i64) = (any(), any()); let r = BigInt::from(x) + BigInt::from(y); check!(is(&r, x as i128 + y as i128)); }
    fn c20_q_sub64() { let (x, y): (i64, i64) = (any(), any()); let r = BigInt::from(x) - BigInt::from(y); check!(is(&r, x as i128 - y as i128)); }
    fn c20_q_neg() { let (n, m): (bool, u128) = (any(), any()); let b = mk(n, m);
        let r = if any() { -b } else { -&b };
        check!(r.is_negative() == (!n && m != 0)); check!(u128::try_from(&r.abs()).ok() == Some(m)); }
    fn c20_q_abs() { let (n, m): (bool, u128) = (any(), any()); let r = mk(n, m).abs();
        check!(r.is_positive() && !r.is_negative()); check!(u128::try_from(&r).ok() == Some(m)); }
    fn c20_q_forms() { let (x, y): (i64, i64) = (any(), any()); let (a, b) = (BigInt::from(x), BigInt::from(y));
        let (s, d) = (x as i128 + y as i128, x as i128 - y as i128);
        match pick(12) {
            0 => check!(is(&(&a + &b), s)), 1 => check!(is(&(&a - &b), d)), 2 => check!(is(&(&a + b), s)), 3 => check!(is(&(&a - b), d)),
            4 => check!(is(&(a + &b), s)), 5 => check!(is(&(a - &b), d)),
            6 => { let mut a = a; a += b; check!(is(&a, s)) } 7 => { let mut a = a; a -= b; check!(is(&a, d)) }
            8 => { let mut a = a; a += &b; check!(is(&a, s)) } 9 => { let mut a = a; a -= &b; check!(is(&a, d)) }
            // an operand and the result can be the same value
            10 => { check!(is(&(&a + &a), x as i128 * 2)); check!(is(&(&a - &a), 0)); }
            _ => { let r = (&a + &b) - &b; check!(r == a); check!(is(&r, x as i128)); }
        } }
    fn c20_q_add128() { let (n1, n2): (bool, bool) = (any(), any()); let (m1, m2): (u128, u128) = (any(), any());
        let (n, c, r) = sum(n1, m1, n2, m2); cover!(c); eqv(mk(n1, m1) + mk(n2, m2), n, c, r); }
    fn c20_q_sub128() { let (n1, n2): (bool, bool) = (any(), any()); let (m1, m2): (u128, u128) = (any(), any());
        let (n, c, r) = sum(n1, m1, !n2, m2); cover!(c); eqv(mk(n1, m1) - mk(n2, m2), n, c, r); }
    fn c20_q_add192() { // three limbs: (a << 64) + b
        let (a, b): (u128, u128) = (any(), any());
        let r = (BigInt::from(a) << 64u8) + BigInt::from(b);
        let (lo, c) = (a << 64).overflowing_add(b);
        let hi = (a >> 64) + c as u128;
        check!(u128::truncate_from(r.clone()) == lo); check!(u128::try_from(&(r >> 128u8)).ok() == Some(hi)); }
    fn c20_q_sub192() { let (a, b): (u128, u128) = (any(), any());
        assume(a >> 64 != 0);
        let r = (BigInt::from(a) << 64u8) - BigInt::from(b);
        let (lo, c) = (a << 64).overflowing_sub(b);
        let hi = (a >> 64) - c as u128;
        check!(!r.is_negative()); check!(u128::truncate_from(r.clone()) == lo); check!(u128::try_from(&(r >> 128u8)).ok() == Some(hi)); }
}
/// magnitude as (high, low) 128-bit halves
type M = (u128, u128);
fn madd(a: M, b: M) -> M { let (l, c) = a.1.overflowing_add(b.1); (a.0 + b.0 + c as u128, l) }
fn msub(a: M, b: M) -> M { let (l, c) = a.1.overflowing_sub(b.1); (a.0 - b.0 - c as u128, l) }
fn wide(x: &BigInt, n: bool, m: M) {
    check!(x.is_negative() == (n && m != (0, 0)));
    let x = x.clone().abs();
    check!(u128::truncate_from(x.clone()) == m.1); check!(u128::try_from(&(x >> 128u8)).ok() == Some(m.0));
}
/// three limb left operand, right operand of one to three limbs, all signs, both orders
fn wide3(sub: bool, k: u8) {
    let (n1, n2) = (pick(2) == 1, pick(2) == 1); let (p, q): (u128, u128) = (any(), any());
    assume(p >> 64 != 0);
    let a = { let t = BigInt::from(p) << 64u8; if n1 { -t } else { t } };
    let ma: M = (p >> 64, p << 64);
    let (b, mb): (BigInt, M) = match k { 0 => { assume(q >> 64 == 0); (mk(n2, q), (0, q)) } 1 => { assume(q >> 64 != 0); (mk(n2, q), (0, q)) }
        _ => { assume(q >> 64 != 0); (mk(n2, q) << 64u8, (q >> 64, q << 64)) } };
    let n2 = n2 != sub;
    let (n, m) = if n1 == n2 { (n1, madd(ma, mb)) } else if ma >= mb { (n1, msub(ma, mb)) } else { (n2, msub(mb, ma)) };
    if pick(2) == 0 { wide(&if sub { &a - &b } else { &a + &b }, n, m); }
    else if sub { wide(&(&b - &a), !n, m); } else { wide(&(&b + &a), n, m); }
}
harness! {
    fn c20_q_add3_1() { wide3(false, 0); } fn c20_q_add3_2() { wide3(false, 1); } fn c20_q_add3_3() { wide3(false, 2); }
    fn c20_q_sub3_1() { wide3(true, 0); } fn c20_q_sub3_2() { wide3(true, 1); } fn c20_q_sub3_3() { wide3(true, 2); }
}
/// all three limbs free
fn mk3(h: u64, l: u128) -> BigInt { (BigInt::from((h as u128) << 64 | l >> 64) << 64u8) | BigInt::from(l as u64) }
fn full3(sub: bool) {
    let (h, l, g, m): (u64, u128, u64, u128) = (any(), any(), any(), any()); assume(h != 0 && g != 0);
    let (n1, n2) = (pick(2) == 1, pick(2) == 1);
    let (a, b) = (mk3(h, l), mk3(g, m)); let (a, b) = (if n1 { -a } else { a }, if n2 { -b } else { b });
    let (ma, mb): (M, M) = ((h as u128, l), (g as u128, m));
    let n2 = n2 != sub;
    let (n, r) = if n1 == n2 { (n1, madd(ma, mb)) } else if ma >= mb { (n1, msub(ma, mb)) } else { (n2, msub(mb, ma)) };
    wide(&if sub { a - b } else { a + b }, n, r);
}
harness! { fn c20_q_addfull() { full3(false); } fn c20_q_subfull() { full3(true); }
    fn c20_q_add4() { // four limbs and a carry that can run through all of them
        let (h, l): (u128, u128) = (any(), any()); let y: u64 = any(); assume(h >> 64 != 0);
        let a = (BigInt::from(h) << 128u8) + BigInt::from(l); let r = a + BigInt::from(y);
        let (lo, c) = l.overflowing_add(y as u128); let (hi, c2) = h.overflowing_add(c as u128); cover!(c2);
        check!(u128::truncate_from(r.clone()) == lo); let t = r >> 128u8; check!(u128::truncate_from(t.clone()) == hi); check!(t >> 128u8 == c2 as u8); }
}
macro_rules! prim { ($($n:ident $t:ty;)*) => { harness! { $( fn $n() {
    let x: i64 = any(); let y: $t = any();
    let (s, d) = (x as i128 + y as i128, x as i128 - y as i128);
    let a = BigInt::from(x);
    match pick(4) { 0 => check!(is(&(a + y), s)), 1 => check!(is(&(a - y), d)),
        2 => { let mut a = a; a += y; check!(is(&a, s)) } _ => { let mut a = a; a -= y; check!(is(&a, d)) } }
} )* } } }
prim! { c20_q_p_u8 u8; c20_q_p_i8 i8; c20_q_p_u16 u16; c20_q_p_i16 i16; c20_q_p_u32 u32; c20_q_p_i32 i32; c20_q_p_u64 u64; c20_q_p_i64 i64; c20_q_p_usize usize; c20_q_p_isize isize; }
