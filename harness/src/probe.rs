use crate::vt::*;
use crate::*;
use numeric_ints::*;
harness! {
  fn p_bigadd() { let a:u64=any(); let b:u64=any();
    let r = BigInt::from(a) + BigInt::from(b);
    check!(u128::try_from(&r).ok() == Some(a as u128 + b as u128)); }
  fn p_bigadd128() { let a:u128=any(); let b:u128=any();
    assume(a >> 127 == 0 && b>>127==0);
    let r = BigInt::from(a) + BigInt::from(b);
    check!(u128::try_from(&r).ok() == Some(a as u128 + b as u128)); }
  fn p_div8() { let a:u8=any(); let b:u8=any(); assume(b!=0);
    let r = BigInt::from(a as u64) / BigInt::from(b as u64);
    check!(u128::try_from(&r).ok() == Some((a / b) as u128)); }
  fn p_div64() { let a:u64=any(); let b:u64=any(); assume(b!=0); merge(1);
    let r = BigInt::from(a as u64) / BigInt::from(b as u64);
    check!(u128::try_from(&r).ok() == Some((a / b) as u128)); }
  fn p_disp() { let a:u8=any();
    let s = BigInt::from(a as u64).to_string();
    let mut v=0u32; for b in s.bytes() { v = v*10 + (b - b'0') as u32; }
    check!(v == a as u32); }
  fn p_mul() { let a:u64=any(); let b:u8=any();
    let r = BigInt::from(a) * BigInt::from(b as u64);
    check!(u128::try_from(&r).ok() == Some(a as u128 * b as u128)); }
  fn p_ucmp() { let a:[u32;2]=any(); let b:[u32;2]=any(); }
}
