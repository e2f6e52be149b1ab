//! C39. Bounds: arguments in [0.5, 1) (exponents and bases in [2, 4)) with every mantissa, f32 and f64; the C library's elementary functions are uninterpreted
//! functions, so nothing is claimed about their accuracy. sqrt: exact over the squares of every u8 (12 bits: thorough); Complex::abs and Vector::distance: Pythagorean
//! triangles with every scale below 64 (f32; thorough: below 256, f64) in several orientations and positions.
use crate::vt::*;
use crate::*;
use numeric_compounds::complex::Complex;
use numeric_compounds::vector::Vector;
use numeric_traits::class::*;
use numeric_traits::ops::*;

trait B: Copy + Real + TrigOps { fn same(self, o: Self) -> bool; }
impl B for f32 { fn same(self, o: f32) -> bool { self.to_bits() == o.to_bits() } }
impl B for f64 { fn same(self, o: f64) -> bool { self.to_bits() == o.to_bits() } }
fn x32() -> f32 { let b: u32 = any(); f32::from_bits(0x3F00_0000 | b & 0x7F_FFFF) }
fn y32() -> f32 { let b: u32 = any(); f32::from_bits(0x4000_0000 | b & 0x7F_FFFF) }
fn x64() -> f64 { let b: u64 = any(); f64::from_bits(0x3FE0_0000_0000_0000 | b & ((1 << 52) - 1)) }
fn y64() -> f64 { let b: u64 = any(); f64::from_bits(0x4000_0000_0000_0000 | b & ((1 << 52) - 1)) }
macro_rules! trig { ($n:ident $p:ident $t:ty, $x:ident, $y:ident) => { harness! {
    fn $n() {
        let x = $x();
        check!(TrigOps::sin(x).same(<$t>::sin(x)));
        check!(TrigOps::cos(x).same(<$t>::cos(x)));
        check!(TrigOps::tan(x).same(<$t>::tan(x)));
        check!(TrigOps::csc(x).same(1.0 / <$t>::sin(x)));
        check!(TrigOps::sec(x).same(1.0 / <$t>::cos(x)));
        check!(TrigOps::cot(x).same(1.0 / <$t>::tan(x)));
    }
    fn $p() {
        let x = $x(); let y = $y();
        check!(Pow::pow(x, y).same(<$t>::powf(x, y)));
        check!(Real::log(x, y).same(<$t>::log(x, y)));
        check!(Real::root(x, y).same(<$t>::powf(x, 1.0 / y)));
        check!(Real::cbrt(x).same(<$t>::powf(x, 1.0 / 3.0)));
        check!(Real::sqrt(x).same(<$t>::sqrt(x)));
    }
} } }
trig! { c39_q_trig32 c39_q_pow32 f32, x32, y32 }
trig! { c39_q_trig64 c39_q_pow64 f64, x64, y64 }
harness! {
    fn c39_q_sqrt32() { let m: u8 = any(); let r = Real::sqrt((m as u32 * m as u32) as f32); check!(r == m as f32); }
    fn c39_q_sqrt64() { let m: u8 = any(); let r = Real::sqrt((m as u32 * m as u32) as f64); check!(r == m as f64); }
    fn c39_t_sqrt64() { let m: u16 = any(); assume(m < 1 << 12); let r = Real::sqrt((m as u32 * m as u32) as f64); check!(r == m as f64); }
    // lengths of Pythagorean triangles of any size and orientation
    fn c39_q_abs() {
        let k: u8 = any(); assume(k < 64); let (a, b, c) = [(3i32, 4i32, 5i32), (-12, 5, 13), (8, -15, 17), (0, 1, 1), (-1, 0, 1)][pick(5)];
        let k = k as i32;
        let z = Complex::new((a * k) as f32, (b * k) as f32);
        check!(z.abs_squared() == (c * k * c * k) as f32); check!(z.abs() == (c * k) as f32);
    }
    fn c39_q_distance() {
        let k: u8 = any(); assume(k < 64); let (a, b, c) = [(3i32, 4i32, 5i32), (-12, 5, 13), (0, 1, 1)][pick(3)]; let (x, y) = [(0, 0), (7, -100)][pick(2)];
        let k = k as i32;
        let p = Vector::new([x as f32, 5.0, y as f32]); let q = Vector::new([(x + a * k) as f32, 5.0, (y + b * k) as f32]);
        check!(Vector::distance_squared(p, q) == (c * k * c * k) as f32); check!(Vector::distance(p, q) == (c * k) as f32);
    }
    fn c39_t_abs64() {
        let k: u8 = any(); let (a, b, c) = [(3i32, 4i32, 5i32), (-12, 5, 13), (8, -15, 17), (0, 1, 1), (-1, 0, 1)][pick(5)];
        let k = k as i32;
        let z = Complex::new((a * k) as f64, (b * k) as f64);
        check!(z.abs_squared() == (c * k * c * k) as f64); check!(z.abs() == (c * k) as f64);
    }
    fn c39_t_distance64() {
        let k: u8 = any(); let (a, b, c) = [(3i32, 4i32, 5i32), (-12, 5, 13), (0, 1, 1)][pick(3)]; let (x, y) = [(0, 0), (7, -100)][pick(2)];
        let k = k as i32;
        let p = Vector::new([x as f64, 5.0, y as f64]); let q = Vector::new([(x + a * k) as f64, 5.0, (y + b * k) as f64]);
        check!(Vector::distance_squared(p, q) == (c * k * c * k) as f64); check!(Vector::distance(p, q) == (c * k) as f64);
    }
}
