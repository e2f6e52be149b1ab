//! C42. Bounds: U and I of 1, 2, 4, 8, 16 and 32 bytes, any generator (every byte it delivers is free). Oracle: each byte of the result is a byte that the generator delivered, and no two are the same one.
use crate::vt::*;
use crate::*;
use numeric_ints::{I, U};
use numeric_traits::identity::Zero;
use rand::distr::StandardUniform;
use rand::prelude::*;
use rand::{Fill, RngCore};

/// a generator that delivers free bytes, or successive ones when `base` is set
struct Src { d: [u8; 160], n: usize, base: Option<u8> }
impl Src { fn new(base: Option<u8>) -> Src { Src { d: [0; 160], n: 0, base } }
    fn byte(&mut self) -> u8 { let b = match self.base { Some(b) => b.wrapping_add(self.n as u8), None => any() }; self.d[self.n] = b; self.n += 1; b } }
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 { u32::from_le_bytes(core::array::from_fn(|_| self.byte())) }
    fn next_u64(&mut self) -> u64 { u64::from_le_bytes(core::array::from_fn(|_| self.byte())) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.byte(); } }
}
fn judge(r: &[u8], s: &Src) {
    if s.base.is_some() { for i in 0..r.len() { for j in 0..i { check!(r[i] != r[j]); } } return; }
    for &x in r { let mut ok = false; for &y in &s.d[..s.n] { ok |= x == y; } check!(ok); }
}
macro_rules! go { ($($n:ident $len:literal;)*) => { harness! { $( fn $n() {
    let base = if pick(2) == 0 { None } else { let b: u8 = any(); Some(b) };
    let mut s = Src::new(base);
    match pick(4) {
        0 => { let v: U<$len> = StandardUniform.sample(&mut s); judge(&bytes_u(v), &s) }
        1 => { let v: I<$len> = StandardUniform.sample(&mut s); judge(&bytes_i(v), &s) }
        2 => { let mut v = U::<$len>::from_le_bytes([0; $len]); v.fill(&mut s); judge(&bytes_u(v), &s) }
        _ => { let mut v = I::<$len>::zero(); v.fill(&mut s); judge(&bytes_i(v), &s) }
    }
} )* } } }
fn bytes_u<const N: usize>(v: U<N>) -> [u8; N] { v.to_le_bytes() }
fn bytes_i<const N: usize>(v: I<N>) -> [u8; N] { assert!(size_of::<I<N>>() == N); unsafe { core::mem::transmute_copy(&v) } }
go! { c42_q_1 1; c42_q_2 2; c42_q_4 4; c42_q_8 8; c42_q_16 16; c42_q_32 32; }
