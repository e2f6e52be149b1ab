//! C35. Bounds: determinant of 1x1, 2x2, 3x3 and row reduction of 2x2, 2x3, 3x2, 3x3 matrices (static and dynamic; 3x4, 4x3 in thorough) over the field of 3 elements, 3x4, 4x3, 4x4 over 2, 5 and 7 for the
//! smaller ones, all entries; over f32 and f64, 2x2 matrices of any i8 entries and 3x2 matrices with a free i4 entry (thorough), and 3x3 matrices of table constants (only the exact zeros). Oracle: Leibniz formula; echelon shape; A x = 0 exactly when R x = 0 for a free vector x (the row spaces agree).
use crate::gf::Gf;
use crate::vt::*;
use crate::*;
use numeric_compounds::matrix::{DynMatrix, Matrix};

fn sym<const P: u8, const R: usize, const C: usize>() -> [[Gf<P>; C]; R] { core::array::from_fn(|_| core::array::from_fn(|_| Gf::sym())) }
fn det3<const P: u8>() {
    let a = sym::<P, 3, 3>();
    merge(1);
    let d = Matrix::new(a).determinant();
    merge(0);
    let e = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    check!(d == e);
}
fn det2<const P: u8>() { let a = sym::<P, 2, 2>(); check!(Matrix::new(a).determinant() == a[0][0] * a[1][1] - a[0][1] * a[1][0]); }
fn reduce<const P: u8, const R: usize, const C: usize>(dynamic: bool) {
    let a = sym::<P, R, C>();
    merge(1);
    let r: [[Gf<P>; C]; R] = if dynamic { let d = DynMatrix::from(a).row_reduce(); core::array::from_fn(|i| core::array::from_fn(|j| d[(i, j)])) }
        else { let d = Matrix::new(a).row_reduce(); core::array::from_fn(|i| core::array::from_fn(|j| d[(i, j)])) };
    merge(0);
    // echelon: below and left of the first non-zero entry of a row there are only zeros, and zero rows come last
    let lead = |i: usize| { let mut l = C; for j in (0..C).rev() { l = if r[i][j].0 != 0 { j } else { l }; } l };
    for i in 1..R { let (p, q) = (lead(i - 1), lead(i)); check!(q > p || q == C); }
    let x: [Gf<P>; C] = core::array::from_fn(|_| Gf::sym());
    let null = |m: &[[Gf<P>; C]; R]| { let mut z = true; for i in 0..R { let mut s = Gf(0); for j in 0..C { s = s + m[i][j] * x[j]; } z &= s.0 == 0; } z };
    check!(null(&a) == null(&r));
}
harness! {
    fn c35_q_det1() { let a = sym::<7, 1, 1>(); check!(Matrix::new(a).determinant() == a[0][0]); }
    fn c35_q_det2() { det2::<7>(); }
    fn c35_q_det3() { det3::<3>(); } fn c35_t_det3_5() { det3::<5>(); } fn c35_t_det3_7() { det3::<7>(); }
    fn c35_q_s22() { reduce::<5, 2, 2>(false); } fn c35_q_s23() { reduce::<3, 2, 3>(false); } fn c35_q_s32() { reduce::<3, 3, 2>(false); } fn c35_q_s33() { reduce::<3, 3, 3>(false); }
    fn c35_q_d22() { reduce::<5, 2, 2>(true); } fn c35_q_d23() { reduce::<3, 2, 3>(true); } fn c35_q_d32() { reduce::<3, 3, 2>(true); } fn c35_q_d33() { reduce::<3, 3, 3>(true); }
    fn c35_q_s34() { reduce::<2, 3, 4>(false); } fn c35_q_d43() { reduce::<2, 4, 3>(true); } fn c35_q_d44() { reduce::<2, 4, 4>(true); }
    fn c35_q_s12() { reduce::<7, 1, 2>(false); } fn c35_q_s21() { reduce::<7, 2, 1>(false); }
    fn c35_t_s34() { reduce::<3, 3, 4>(false); } fn c35_t_s43() { reduce::<3, 4, 3>(false); } fn c35_t_d34() { reduce::<3, 3, 4>(true); } fn c35_t_s33_5() { reduce::<5, 3, 3>(false); }
}

// rounding errors must not show below a pivot
macro_rules! fl { ($n2:ident $n3:ident $f:ty) => { harness! {
    fn $n2() {
        let a: [i8; 4] = [any(), any(), any(), any()]; let dynamic = pick(2) == 1;
        let m = [[a[0] as $f, a[1] as $f], [a[2] as $f, a[3] as $f]];
        let (x, y) = if dynamic { let d = DynMatrix::from(m).row_reduce(); (d[(0, 0)], d[(1, 0)]) } else { let d = Matrix::new(m).row_reduce(); (d[(0, 0)], d[(1, 0)]) };
        check!(y == 0.0); check!((x == 0.0) == (a[0] == 0 && a[2] == 0));
    }
    fn $n3() {
        let s: i8 = any(); assume(s >= -8 && s < 8); let a = [s, 3, -7];
        let dynamic = pick(2) == 1; let b = [[7.0, 3.0, 49.0], [1.0, -3.0, 10.0]][pick(2)];
        let m = [[a[0] as $f, b[0]], [a[1] as $f, b[1]], [a[2] as $f, b[2]]];
        let r: [[$f; 2]; 3] = if dynamic { let d = DynMatrix::from(m).row_reduce(); core::array::from_fn(|i| core::array::from_fn(|j| d[(i, j)])) }
            else { let d = Matrix::new(m).row_reduce(); core::array::from_fn(|i| core::array::from_fn(|j| d[(i, j)])) };
        check!(r[1][0] == 0.0 && r[2][0] == 0.0 && r[2][1] == 0.0);
    }
} } }
fl! { c35_q_float22 c35_t_float32 f32 }
harness! { fn c35_q_double33() {
    let n = |i: usize| [1.0, 3.0, 7.0, 49.0, -10.0, 0.1][i];
    let m: [[f64; 3]; 3] = [[n(pick(6)), n(pick(2)), 1.0], [n(pick(6)), n(2 + pick(2)), 0.3], [n(pick(6)), n(4 + pick(2)), -2.0]];
    let d = Matrix::new(m).row_reduce();
    check!(d[(1, 0)] == 0.0 && d[(2, 0)] == 0.0 && d[(2, 1)] == 0.0);
    let e = DynMatrix::from(m).row_reduce();
    check!(e[(1, 0)] == 0.0 && e[(2, 0)] == 0.0 && e[(2, 1)] == 0.0);
} }
