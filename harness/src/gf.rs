//! The field of P elements (P prime), standing in for an exact real type.
use crate::vt::*;
use core::ops::*;
use numeric_traits::class::*;
use numeric_traits::identity::*;
use numeric_traits::ops::Pow;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Debug, Default)]
pub struct Gf<const P: u8>(pub u8);
impl<const P: u8> Gf<P> {
    #[inline(always)]
    pub fn sym() -> Self {
        let x = any::<u8>();
        assume(x < P);
        Gf(x)
    }
}
impl<const P: u8> Add for Gf<P> { type Output = Self; #[inline(always)] fn add(self, r: Self) -> Self { let s = self.0.wrapping_add(r.0); Gf(if s >= P { s.wrapping_sub(P) } else { s }) } }
impl<const P: u8> Sub for Gf<P> { type Output = Self; #[inline(always)] fn sub(self, r: Self) -> Self { Gf(if self.0 >= r.0 { self.0 - r.0 } else { self.0.wrapping_add(P).wrapping_sub(r.0) }) } }
impl<const P: u8> Mul for Gf<P> { type Output = Self; #[inline(always)] fn mul(self, r: Self) -> Self { Gf(self.0.wrapping_mul(r.0) % P) } }
impl<const P: u8> Div for Gf<P> { type Output = Self;
    fn div(self, r: Self) -> Self {
        if r.0 == 0 { panic!("division by zero") }
        // r^(P-2) is the inverse
        let mut inv = Gf(1);
        let mut i = 0;
        while i < P - 2 { inv = inv * r; i += 1; }
        self * inv
    }
}
impl<const P: u8> Rem for Gf<P> { type Output = Self; fn rem(self, r: Self) -> Self { if r.0 == 0 { panic!("division by zero") } Gf(0) } }
impl<const P: u8> Neg for Gf<P> { type Output = Self; #[inline(always)] fn neg(self) -> Self { Gf(0) - self } }
impl<const P: u8> Pow for Gf<P> { type Output = Self; fn pow(self, r: Self) -> Self { let mut o = Gf(1); let mut i = 0; while i < r.0 { o = o * self; i += 1; } o } }
impl<const P: u8> Zero for Gf<P> { #[inline(always)] fn zero() -> Self { Gf(0) } #[inline(always)] fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u8> One for Gf<P> { #[inline(always)] fn one() -> Self { Gf(1) } #[inline(always)] fn is_one(&self) -> bool { self.0 == 1 } }
impl<const P: u8> Numeric for Gf<P> {}
impl<const P: u8> Signed for Gf<P> { fn abs(self) -> Self { self } fn is_positive(&self) -> bool { true } fn is_negative(&self) -> bool { false } }
impl<const P: u8> Real for Gf<P> {
    fn floor(self) -> Self { self } fn ceil(self) -> Self { self } fn round(self) -> Self { self } fn trunc(self) -> Self { self } fn fract(self) -> Self { Gf(0) }
    fn log(self, _: Self) -> Self { panic!("no logarithm") }
}
impl<const P: u8> RealSigned for Gf<P> {}
