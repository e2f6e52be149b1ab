//! C32. Bounds: Complex over i16/i32 with all operand parts of 16 (products: 8) bits, over the fields of 7 and 11 elements (where -1 is no square, so that the complex numbers form a field) for
//! division and the field laws, all operands; over u8 (checked profile) for the panics. Oracle: the defining formulas in a wider integer type; division by multiplying back.
use crate::gf::Gf;
use crate::vt::*;
use crate::*;
use numeric_compounds::complex::Complex;
use numeric_traits::identity::*;

fn c32() -> (Complex<i32>, i32, i32) { let (a, b) = (any::<i16>() as i32, any::<i16>() as i32); (Complex::new(a, b), a, b) }
fn is(r: Complex<i32>, re: i32, im: i32) { check!(*r.real() == re && *r.imag() == im); }
fn gf<const P: u8>() -> Complex<Gf<P>> { Complex::new(Gf::sym(), Gf::sym()) }
fn div<const P: u8>() {
    let (a, b) = (gf::<P>(), gf::<P>());
    let zero = b.real().0 == 0 && b.imag().0 == 0;
    check!(b.is_zero() == zero);
    panic_ok(zero);
    merge(1);
    let q = a.clone() / b.clone();
    merge(0);
    check!(!zero);
    check!(q * b == a);
}
fn sdiv<const P: u8>() {
    let a = gf::<P>(); let k = Gf::<P>::sym();
    panic_ok(k.0 == 0);
    let q = a.clone() / k;
    check!(k.0 != 0);
    check!(*q.real() * k == *a.real() && *q.imag() * k == *a.imag());
}
harness! {
    fn c32_q_lin() {
        let (x, a, b) = c32(); let (y, c, d) = c32(); let k = any::<i16>() as i32;
        match pick(7) {
            0 => is(x + y, a + c, b + d),
            1 => is(x - y, a - c, b - d),
            2 => is(x + k, a + k, b),
            3 => is(x - k, a - k, b),
            4 => { check!((x == y) == (a == c && b == d)); check!(x.is_zero() == (a == 0 && b == 0)); check!(x.is_one() == (a == 1 && b == 0)); }
            5 => { is(Complex::zero(), 0, 0); is(Complex::one(), 1, 0); is(Complex::default(), 0, 0); check!(Complex::<i32>::one().is_one() && Complex::<i32>::zero().is_zero()); }
            _ => { is(Complex::from_real(a), a, 0); is(Complex::from_imag(a), 0, a); is(x.clone(), a, b); }
        } }
    fn c32_q_mul() {
        let (a, b, c, d) = (any::<i8>() as i32, any::<i8>() as i32, any::<i8>() as i32, any::<i8>() as i32);
        match pick(3) {
            0 => is(Complex::new(a, b) * Complex::new(c, d), a * c - b * d, a * d + b * c),
            1 => is(Complex::new(a, b) * c, a * c, b * c),
            _ => { is(Complex::new(0, 1) * Complex::new(a, b), -b, a); is(Complex::<i32>::one() * Complex::new(a, b), a, b); }
        } }
    fn c32_q_laws() {
        let (a, b, c) = (gf::<7>(), gf::<7>(), gf::<7>());
        match pick(4) {
            0 => check!(a.clone() * b.clone() == b * a),
            1 => check!((a.clone() * b.clone()) * c.clone() == a * (b * c)),
            2 => check!(a.clone() * (b.clone() + c.clone()) == a.clone() * b + a * c),
            // the squared modulus is multiplicative
            _ => check!((a.clone() * b.clone()).abs_squared() == a.abs_squared() * b.abs_squared()),
        } }
    fn c32_q_norm() { let a = gf::<11>(); check!(a.abs_squared() == *a.real() * *a.real() + *a.imag() * *a.imag()); }
    fn c32_q_div7() { div::<7>(); }
    fn c32_q_div11() { div::<11>(); }
    fn c32_t_div19() { div::<19>(); }
    fn c32_q_sdiv7() { sdiv::<7>(); }
    fn c32_q_sdiv11() { sdiv::<11>(); }
    fn c32_q_int_div() { // exact integer quotients
        let (a, b, c, d) = (any::<i8>() as i32, any::<i8>() as i32, any::<i8>() as i32, any::<i8>() as i32);
        assume(a > -8 && a < 8 && b > -8 && b < 8 && c > -4 && c < 4 && d > -4 && d < 4 && (c != 0 || d != 0));
        let p = Complex::new(a * c - b * d, a * d + b * c);
        merge(1);
        let q = p / Complex::new(c, d);
        merge(0);
        is(q, a, b); }
}
