//! C36. Bounds: Matrix, DynMatrix, MatrixRef and MatrixMut of 2 by 3 (1 by 1, 3 by 1) 16-bit entries, every usize row and column; DynMatrix::new with 0 to 4 entries and every usize row and column count. Both
//! build profiles. Every memory access is checked against its allocation.
use crate::vt::*;
use crate::*;
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
extern crate alloc;
use alloc::vec::Vec;

fn rd<const R: usize, const C: usize>(kind: usize) {
    let a: [[u16; C]; R] = core::array::from_fn(|_| core::array::from_fn(|_| any()));
    let (i, j): (usize, usize) = (any(), any());
    let ok = i < R && j < C;
    cover!(ok); cover!(!ok);
    panic_ok(!ok);
    let r = match kind {
        0 => Matrix::new(a)[(i, j)],
        1 => DynMatrix::from(a)[(i, j)],
        2 => { let m = Matrix::new(a); let v = MatrixRef::from(&m); let w = v; let _ = v.clone(); w[(i, j)] }
        3 => { let m = DynMatrix::from(a); let v = MatrixRef::from(&m); v[(i, j)] }
        4 => { let mut m = Matrix::new(a); let v = MatrixMut::from(&mut m); v[(i, j)] }
        _ => { let mut m = DynMatrix::from(a); let v = MatrixMut::from(&mut m); v[(i, j)] }
    };
    check!(ok);
    check!(r == a[i][j]);
}
fn wr<const R: usize, const C: usize>(kind: usize) {
    let a: [[u16; C]; R] = core::array::from_fn(|_| core::array::from_fn(|_| any()));
    let (i, j): (usize, usize) = (any(), any()); let x: u16 = any();
    let ok = i < R && j < C;
    panic_ok(!ok);
    let (mut m, mut d) = (Matrix::new(a), DynMatrix::from(a));
    match kind { 0 => m[(i, j)] = x, 1 => d[(i, j)] = x, 2 => MatrixMut::from(&mut m)[(i, j)] = x, _ => MatrixMut::from(&mut d)[(i, j)] = x }
    check!(ok);
    for p in 0..R { for q in 0..C { let e = if p == i && q == j { x } else { a[p][q] }; let o = if kind % 2 == 0 { m[(p, q)] } else { d[(p, q)] }; check!(o == e); } }
}
macro_rules! all { ($($n:ident $f:ident $r:literal $c:literal $k:literal;)*) => { harness! { $( fn $n() { $f::<$r, $c>($k) } )* } } }
all! { c36_qb_m rd 2 3 0; c36_qb_d rd 2 3 1; c36_qb_rm rd 2 3 2; c36_qb_rd rd 2 3 3; c36_qb_mm rd 2 3 4; c36_qb_md rd 2 3 5;
    c36_q_r11 rd 1 1 2; c36_q_d31 rd 3 1 1; c36_q_r31 rd 3 1 3; c36_q_m13 rd 1 3 4;
    c36_qb_wm wr 2 3 0; c36_qb_wd wr 2 3 1; c36_qb_wmm wr 2 3 2; c36_qb_wmd wr 2 3 3; }
harness! {
    fn c36_qb_new() { // an accepted DynMatrix covers exactly its data: reading through a view stays inside
        let n = pick(5); let (r, c): (usize, usize) = (any(), any());
        let (i, j): (usize, usize) = (any(), any());
        let fits = r as u128 * c as u128 == n as u128;
        panic_ok(!fits || i >= r || j >= c);
        let mut data = Vec::new(); for k in 0..n { data.push(k as u8); }
        let d = DynMatrix::new(data, r, c);
        check!(fits);
        check!(d.rows() == r && d.cols() == c);
        let v = if pick(2) == 0 { MatrixRef::from(&d)[(i, j)] } else { d[(i, j)] };
        check!(i < r && j < c);
        check!(v as usize == i * c + j); }
}
