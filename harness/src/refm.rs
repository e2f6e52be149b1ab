//! Reference models shared by the harnesses.
#![allow(dead_code)]

/// The value of a little-endian slice of limbs (must fit in 128 bits).
pub trait Limb: Copy + Into<u128> {
    const BITS: usize;
    fn low(v: u128) -> Self;
}
macro_rules! limb { ($($t:ty)*) => { $( impl Limb for $t { const BITS: usize = <$t>::BITS as usize; fn low(v: u128) -> Self { v as $t } } )* } }
limb!(u8 u16 u32 u64 u128);

#[inline(always)]
pub fn val<T: Limb>(s: &[T]) -> u128 {
    let mut v = 0u128;
    for (i, &l) in s.iter().enumerate() {
        let l: u128 = l.into();
        if i * T::BITS < 128 {
            v |= l << (i * T::BITS);
        }
    }
    v
}
/// whether `val` lost nothing
#[inline(always)]
pub fn fits<T: Limb>(s: &[T]) -> bool {
    let mut ok = true;
    for (i, &l) in s.iter().enumerate() {
        let l: u128 = l.into();
        if i * T::BITS >= 128 {
            ok &= l == 0;
        }
    }
    ok
}
/// 2^bits - 1
#[inline(always)]
pub fn ones(bits: usize) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}
/// no superfluous leading zero limb
#[inline(always)]
pub fn canon<T: Limb>(s: &[T]) -> bool {
    s.len() == 1 || (s.len() > 1 && s[s.len() - 1].into() != 0)
}
/// Schoolbook product: limb k of the result is the column sum of the low halves of a_i*b_j (i+j=k) and the high halves (i+j=k-1), plus the
/// carry of the previous column. Every partial product is one exact 128-bit multiplication.
#[inline(always)]
pub fn mulref<T: Limb, const N: usize>(a: &[T], b: &[T]) -> [u128; N] {
    let m = ones(T::BITS);
    let mut out = [0u128; N];
    let mut carry = 0u128;
    let mut k = 0;
    while k < N {
        let mut col = carry;
        let mut i = 0;
        while i < a.len() {
            let ai: u128 = a[i].into();
            if i <= k && k - i < b.len() {
                let bj: u128 = b[k - i].into();
                col += (ai * bj) & m;
            }
            if i < k && k - 1 - i < b.len() {
                let bj: u128 = b[k - 1 - i].into();
                col += (ai * bj) >> T::BITS;
            }
            i += 1;
        }
        out[k] = col & m;
        carry = col >> T::BITS;
        k += 1;
    }
    out
}
/// `r` read as a number equals the number with limbs `e`
#[inline(always)]
pub fn same<T: Limb>(r: &[T], e: &[u128]) -> bool {
    let mut ok = true;
    let mut k = 0;
    let n = if r.len() > e.len() { r.len() } else { e.len() };
    while k < n {
        let x: u128 = if k < r.len() { r[k].into() } else { 0 };
        let y: u128 = if k < e.len() { e[k] } else { 0 };
        ok &= x == y;
        k += 1;
    }
    ok
}

/// limb k of a sequence, zero past its end
#[inline(always)]
pub fn lim<T: Limb>(a: &[T], k: usize) -> u128 { if k < a.len() { a[k].into() } else { 0 } }
/// the N low limbs of a + b, and the carry out of them
#[inline(always)]
pub fn addref<T: Limb, const N: usize>(a: &[T], b: &[T]) -> ([u128; N], bool) {
    let mut out = [0; N]; let mut c = 0; let mut k = 0;
    while k < N { let s = lim(a, k) + lim(b, k) + c; out[k] = s & ones(T::BITS); c = s >> T::BITS; k += 1; }
    (out, c != 0)
}
/// the N low limbs of a - b, and the borrow
#[inline(always)]
pub fn subref<T: Limb, const N: usize>(a: &[T], b: &[T]) -> ([u128; N], bool) {
    let mut out = [0; N]; let mut c = 0; let mut k = 0;
    while k < N { let s = (1 << T::BITS) + lim(a, k) - lim(b, k) - c; out[k] = s & ones(T::BITS); c = 1 - (s >> T::BITS); k += 1; }
    (out, c != 0)
}
/// a < b as numbers
#[inline(always)]
pub fn ltref<T: Limb>(a: &[T], b: &[T]) -> bool {
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    let mut lt = false; let mut k = 0;
    while k < n { let (x, y) = (lim(a, k), lim(b, k)); lt = x < y || (x == y && lt); k += 1; }
    lt
}
/// limb k of a * 2^n
#[inline(always)]
pub fn shlref<T: Limb>(a: &[T], n: usize, k: usize) -> u128 {
    let (w, b) = (n / T::BITS, n % T::BITS);
    if k < w { return 0; }
    let hi = lim(a, k - w) << b;
    let lo = if b > 0 && k > w { lim(a, k - w - 1) >> (T::BITS - b) } else { 0 };
    (hi | lo) & ones(T::BITS)
}
/// limb k of a / 2^n
#[inline(always)]
pub fn shrref<T: Limb>(a: &[T], n: usize, k: usize) -> u128 {
    let (w, b) = (n / T::BITS, n % T::BITS);
    let lo = lim(a, k + w) >> b;
    let hi = if b > 0 { lim(a, k + w + 1) << (T::BITS - b) } else { 0 };
    (lo | hi) & ones(T::BITS)
}

/// dividends and divisors around the limb boundaries
pub const NUMS: [u128; 10] = [1 << 31, 1 << 62, 1 << 63, (1 << 64) - 16, 1 << 64, 3 << 63, (1 << 96) - 16, 1 << 126, 1 << 127, u128::MAX - 15];
pub const DENS: [u128; 16] = [1, 3, 10, 255, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 62) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 65) - 1, 1 << 127, u128::MAX];
/// q and r are the quotient and remainder of x by y != 0
pub fn divided(x: u128, y: u128, q: u128, r: u128) -> bool {
    r < y && match q.checked_mul(y) { Some(p) => p.checked_add(r) == Some(x), None => false }
}
