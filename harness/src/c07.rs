//! C07. Bounds: slices, arrays and vectors of u8 (1..=3 elements), u32 (1..=2) and u64 (1..=2), all element values, every bit or
//! element index of the whole usize range for the non-growing accessors, and indices below 5 elements for the growing ones.
use crate::refm::*;
use crate::vt::*;
use crate::*;
use numeric_bits::bit_slice::*;

fn bit<T: Limb>(s: &[T], i: usize) -> bool {
    (val(s) >> i) & 1 == 1
}

macro_rules! acc {
    ($($n:ident $m:ident $t:ty, $max:expr;)*) => { harness! { $(
        fn $n() {
            let arr: [$t; $max] = any();
            let len = 1 + pick($max);
            let i: usize = any();
            let b = <$t>::BITS as usize;
            let s: &[$t] = &arr[..len];
            match pick(4) {
                0 => {
                    let r = BitSliceExt::get_bit_opt(s, i);
                    cover!(r == Some(true));
                    if i >= len * b { check!(r.is_none()); } else { check!(r == Some(bit(s, i))); }
                }
                1 => {
                    let r = BitSliceExt::get_opt(s, i);
                    if i >= len { check!(r.is_none()); } else { check!(r == Some((val(s) >> (i * b)) as $t)); }
                }
                2 => {
                    panic_ok(i >= len * b);
                    let r = BitSliceExt::get_bit(s, i);
                    check!(i < len * b && r == bit(s, i));
                }
                _ => {
                    panic_ok(i >= len);
                    let r = BitSliceExt::get(s, i);
                    check!(i < len && r == (val(s) >> (i * b)) as $t);
                }
            }
            check!(BitSliceExt::len(s) == len && BitSliceExt::bit_len(s) == len * b && !BitSliceExt::is_empty(s));
        }
        fn $m() {
            let arr: [$t; $max] = any();
            let len = 1 + pick($max);
            let mut new = arr;
            let i: usize = any();
            let x: bool = any();
            let v: $t = any();
            let b = <$t>::BITS as usize;
            let old = val(&arr[..len]);
            let s: &mut [$t] = &mut new[..len];
            let set = |i: usize| (old & !(1u128 << i)) | ((x as u128) << i);
            let put = |i: usize| (old & !(ones(b) << (i * b))) | ((v as u128) << (i * b));
            match pick(6) {
                0 => {
                    let r = BitSliceExt::set_bit_opt(s, i, x);
                    check!(r.is_some() == (i < len * b));
                    check!(val(s) == if i < len * b { set(i) } else { old });
                }
                1 => {
                    BitSliceExt::set_bit_ignore(s, i, x);
                    check!(val(s) == if i < len * b { set(i) } else { old });
                }
                2 => {
                    panic_ok(i >= len * b);
                    BitSliceExt::set_bit(s, i, x);
                    check!(i < len * b && val(s) == set(i));
                }
                3 => {
                    let r = BitSliceExt::set_opt(s, i, v);
                    check!(r.is_some() == (i < len));
                    check!(val(s) == if i < len { put(i) } else { old });
                }
                4 => {
                    BitSliceExt::set_ignore(s, i, v);
                    check!(val(s) == if i < len { put(i) } else { old });
                }
                _ => {
                    panic_ok(i >= len);
                    BitSliceExt::set(s, i, v);
                    check!(i < len && val(s) == put(i));
                }
            }
        }
    )* } };
}
acc! { c07_q_get_u8 c07_q_set_u8 u8, 3; c07_q_get_u16 c07_q_set_u16 u16, 2; c07_q_get_u32 c07_q_set_u32 u32, 2; c07_q_get_u64 c07_q_set_u64 u64, 2; c07_t_get_u128 c07_t_set_u128 u128, 1; c07_t_get_u8x5 c07_t_set_u8x5 u8, 5; }

macro_rules! iter {
    ($($n:ident $t:ty, $max:expr;)*) => { harness! { $( fn $n() {
        let arr: [$t; $max] = any();
        let len = 1 + pick($max);
        let s: &[$t] = &arr[..len];
        let total = len * <$t>::BITS as usize;
        let mut it = BitSliceExt::iter_bits(s);
        let mut i = 0;
        while i < total {
            check!(it.len() == total - i);
            check!(it.size_hint() == (total - i, Some(total - i)));
            let b = it.next();
            check!(b == Some(bit(s, i)));
            i += 1;
        }
        check!(it.len() == 0);
        check!(it.next().is_none());
        check!(it.next().is_none());
        check!(it.size_hint() == (0, Some(0)));
    } )* } };
}
iter! { c07_q_iter_u8 u8, 3; c07_q_iter_u32 u32, 2; c07_t_iter_u64 u64, 2; c07_t_iter_u128 u128, 1; }

macro_rules! grow {
    ($($n:ident $t:ty, $max:expr, $cap:expr;)*) => { harness! { $( fn $n() {
        let len = pick($max + 1);
        let mut v: Vec<$t> = Vec::new();
        let mut k = 0;
        while k < len { v.push(any()); k += 1; }
        let old = val(&v);
        let b = <$t>::BITS as usize;
        let x: $t = any();
        match pick(3) {
            0 => {
                let want = pick($cap + 1);
                BitVecExt::extend(&mut v, want, x);
                check!(v.len() == if want > len { want } else { len });
                let mut e = old;
                let mut k = len;
                while k < v.len() { e |= (x as u128) << (k * b); k += 1; }
                check!(val(&v) == e);
            }
            1 => {
                let i = pick($cap);
                BitVecExt::set_push(&mut v, i, x);
                check!(val(&v) == (old & !(ones(b) << (i * b))) | ((x as u128) << (i * b)));
                check!(v.len() >= len && v.len() > i);
            }
            _ => {
                let i = pick($cap * b);
                let y: bool = any();
                BitVecExt::set_bit_push(&mut v, i, y);
                check!(val(&v) == (old & !(1u128 << i)) | ((y as u128) << i));
                check!(v.len() >= len && v.len() * b > i);
            }
        }
    } )* } };
}
grow! { c07_q_grow_u8 u8, 3, 5; c07_q_grow_u32 u32, 2, 4; }
