//! C33. Bounds: Vector of 1 to 4 components over i8/i16/i32, all component values (products: 8 bits); sum, product, dot product and squared distance over the field of 7 elements; component
//! index: every usize. Oracle: the component-wise scalar operation, including its panics and None.
use crate::gf::Gf;
use crate::vt::*;
use crate::*;
use numeric_compounds::vector::{Vec2, Vec3, Vec4, Vector};
use numeric_traits::identity::*;
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};

fn arr<T: Sym, const N: usize>() -> [T; N] { core::array::from_fn(|_| any()) }
macro_rules! ops { ($($n:ident $len:literal;)*) => { harness! { $( fn $n() {
    // wrapping results only exist without overflow: the panics must match the components' exactly
    let (a, b): ([i8; $len], [i8; $len]) = (arr(), arr()); let k: i8 = any();
    let (v, w) = (Vector::new(a), Vector::new(b));
    let op = pick(5); let shape = pick(8);
    let f = |x: i8, y: i8| match op { 0 => x.checked_add(y), 1 => x.checked_sub(y), 2 => x.checked_mul(y), 3 => x.checked_div(y), _ => x.checked_rem(y) };
    let scalar = shape % 2 == 1;
    let mut exp = [0i8; $len]; let mut ok = true;
    for i in 0..$len { let y = if scalar { k } else { b[i] }; match f(a[i], y) { Some(r) => exp[i] = r, None => ok = false } }
    cover!(ok); cover!(!ok);
    panic_ok(!ok);
    macro_rules! go { ($o:tt, $oa:tt) => { match shape {
        0 => v $o w, 1 => v $o k, 2 => v $o &w, 3 => v $o &k,
        4 => { let mut v = v; v $oa w; v } 5 => { let mut v = v; v $oa k; v } 6 => { let mut v = v; v $oa &w; v } _ => { let mut v = v; v $oa &k; v }
    } } }
    let r = match op { 0 => go!(+, +=), 1 => go!(-, -=), 2 => go!(*, *=), 3 => go!(/, /=), _ => go!(%, %=) };
    check!(ok);
    check!(r == Vector::new(exp));
} )* } } }
ops! { c33_q_ops1 1; c33_q_ops2 2; c33_q_ops3 3; c33_q_ops4 4; }

macro_rules! checked { ($($n:ident $t:ty, $len:literal;)*) => { harness! { $( fn $n() {
    let (a, b): ([$t; $len], [$t; $len]) = (arr(), arr());
    let sub = pick(2) == 1;
    let mut exp = [0; $len]; let mut ok = true;
    for i in 0..$len { match if sub { <$t>::checked_sub(a[i], b[i]) } else { <$t>::checked_add(a[i], b[i]) } { Some(r) => exp[i] = r, None => ok = false } }
    let r = if sub { CheckedSub::checked_sub(Vector::new(a), Vector::new(b)) } else { CheckedAdd::checked_add(Vector::new(a), Vector::new(b)) };
    cover!(!ok); cover!(ok);
    match r { None => check!(!ok), Some(r) => { check!(ok); check!(r == Vector::new(exp)); } }
} )* } } }
checked! { c33_q_checked1 u8, 1; c33_q_checked2 i32, 2; c33_q_checked3 u8, 3; c33_q_checked4 i16, 4; }

harness! {
    fn c33_q_reduce() {
        type F = Gf<7>;
        let (a, b): ([F; 3], [F; 3]) = (core::array::from_fn(|_| F::sym()), core::array::from_fn(|_| F::sym()));
        let (v, w) = (Vector::new(a), Vector::new(b));
        match pick(4) {
            0 => check!(v.sum() == a[0] + a[1] + a[2]),
            1 => check!(v.product() == a[0] * a[1] * a[2]),
            2 => check!(Vector::dot_product(v, w) == a[0] * b[0] + a[1] * b[1] + a[2] * b[2]),
            _ => { let d = |i: usize| (a[i] - b[i]) * (a[i] - b[i]); check!(Vector::distance_squared(v, w) == d(0) + d(1) + d(2)); }
        } }
    fn c33_q_reduce4() {
        type F = Gf<5>;
        let (a, b): ([F; 4], [F; 4]) = (core::array::from_fn(|_| F::sym()), core::array::from_fn(|_| F::sym()));
        let (v, w) = (Vector::new(a), Vector::new(b));
        match pick(3) {
            0 => check!(v.sum() == a[0] + a[1] + a[2] + a[3]),
            1 => check!(v.product() == a[0] * a[1] * a[2] * a[3]),
            _ => check!(Vector::dot_product(v, w) == a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]),
        } }
    fn c33_q_cross() {
        let a: [i32; 3] = core::array::from_fn(|_| any::<i8>() as i32); let b: [i32; 3] = core::array::from_fn(|_| any::<i8>() as i32);
        let r = Vector::new(a).cross(Vector::new(b));
        check!(r[0] == a[1] * b[2] - a[2] * b[1]); check!(r[1] == a[2] * b[0] - a[0] * b[2]); check!(r[2] == a[0] * b[1] - a[1] * b[0]); }
    fn c33_q_index() {
        let a: [u16; 4] = arr(); let i: usize = any(); let x: u16 = any();
        let mut v = Vector::new(a);
        panic_ok(i >= 4);
        let r = if pick(2) == 0 { v[i] } else { v[i] = x; x };
        check!(i < 4);
        check!(r == a[i] || r == x);
        let o: [u16; 4] = v.into();
        for j in 0..4 { check!(o[j] == a[j] || (j == i && o[j] == x)); }
        check!(v[i] == r); }
    fn c33_q_access() {
        let a: [u16; 4] = arr(); let x: u16 = any(); let k = pick(4);
        match pick(3) {
            0 => { let mut v = Vec4::from_xyzw(a[0], a[1], a[2], a[3]);
                check!(*v.x() == a[0] && *v.y() == a[1] && *v.z() == a[2] && *v.w() == a[3]);
                if pick(2) == 0 { match k { 0 => v.set_x(x), 1 => v.set_y(x), 2 => v.set_z(x), _ => v.set_w(x) } } else { *match k { 0 => v.x_mut(), 1 => v.y_mut(), 2 => v.z_mut(), _ => v.w_mut() } = x; }
                for j in 0..4 { check!(v[j] == if j == k { x } else { a[j] }); } }
            1 => { let mut v = Vec3::from_xyz(a[0], a[1], a[2]);
                check!(*v.x() == a[0] && *v.y() == a[1] && *v.z() == a[2]); assume(k < 3);
                if pick(2) == 0 { match k { 0 => v.set_x(x), 1 => v.set_y(x), _ => v.set_z(x) } } else { *match k { 0 => v.x_mut(), 1 => v.y_mut(), _ => v.z_mut() } = x; }
                for j in 0..3 { check!(v[j] == if j == k { x } else { a[j] }); } }
            _ => { let mut v = Vec2::from_xy(a[0], a[1]);
                check!(*v.x() == a[0] && *v.y() == a[1]); assume(k < 2);
                if pick(2) == 0 { match k { 0 => v.set_x(x), _ => v.set_y(x) } } else { *match k { 0 => v.x_mut(), _ => v.y_mut() } = x; }
                for j in 0..2 { check!(v[j] == if j == k { x } else { a[j] }); } }
        } }
    fn c33_q_make() {
        let a: [i16; 3] = arr(); let b: [i16; 3] = arr(); let k: i16 = any();
        let v = Vector::new(a);
        check!(<[i16; 3]>::from(v) == a); check!(Vector::from(a) == v); check!((v == Vector::new(b)) == (a == b));
        check!(Vector::<i16, 3>::from_scalar(k) == Vector::new([k; 3]));
        check!(Vector::<i16, 3>::zero() == Vector::new([0; 3]) && Vector::<i16, 3>::zeroed() == Vector::new([0; 3]) && Vector::<i16, 3>::default() == Vector::new([0; 3]));
        check!(v.is_zero() == (a == [0; 3]));
        let r = v.into_row(); let c = v.into_column();
        for i in 0..3 { check!(r[(0, i)] == a[i]); check!(c[(i, 0)] == a[i]); } }
}
