//! C25. Bounds: formatting: decimal (Display, Debug) and hexadecimal (both cases) of every value with magnitude below 2^8, either sign, and hexadecimal of
//! x * 2^62 and x * 2^64 for x below 8; binary of x * 2^k for x below 16, k in {0, 29, 60}. Parsing: every string of up to 3 (radix 2), 2 (radix 10, 16) or 1 (radix 36) ASCII characters (one more in thorough),
//! optionally preceded by '-', and 18 digit hexadecimal numbers with one free digit; radixes above 36 are rejected.
//! Around the limb boundaries: decimal and hexadecimal of 11 values between 2^32 and 2^127 with 1 to 3 free low bits, either sign; parsing of strings of 12 to 61 characters (radix 2, 10, 16, 36) with one free ASCII character at any position, either sign.
use crate::vt::*;
use crate::*;
use core::fmt::Write;
use numeric_ints::BigInt;
use numeric_traits::cast::*;
use numeric_traits::class::Signed;

fn is(b: &BigInt, v: i128) -> bool { i128::try_from(b).ok() == Some(v) }
/// text buffer
struct Buf { b: [u8; 80], n: usize }
impl Write for Buf { fn write_str(&mut self, s: &str) -> core::fmt::Result { for &c in s.as_bytes() { if self.n < 80 { self.b[self.n] = c; } self.n += 1; } Ok(()) } }
fn buf() -> Buf { Buf { b: [0; 80], n: 0 } }
fn dig(c: u8, radix: u32, upper: bool) -> u32 {
    let d = match c { b'0'..=b'9' => (c - b'0') as u32, b'a'..=b'z' if !upper => (c - b'a') as u32 + 10, b'A'..=b'Z' if upper => (c - b'A') as u32 + 10, _ => 999 };
    if d < radix { d } else { 999 }
}
/// the text is [-][prefix]digits, canonical, and denotes x
fn denotes(t: &Buf, prefix: &[u8], radix: u32, upper: bool, x: i128) -> bool {
    let mut i = 0; let neg = t.b[0] == b'-'; if neg { i = 1; }
    for &p in prefix { if t.b[i] != p { return false; } i += 1; }
    let first = t.b[i]; let k = t.n - i; if k == 0 || k > 40 { return false; }
    let mut v = 0i128; let mut ok = true;
    while i < t.n { let d = dig(t.b[i], radix, upper); ok &= d != 999; v = v * radix as i128 + d as i128; i += 1; }
    ok && (k == 1 || first != b'0') && neg == (x < 0) && v == x.abs()
}
harness! {
    fn c25_q_dec() { let n: bool = any(); let m: u8 = any(); let x = if n { -(m as i128) } else { m as i128 }; let b = BigInt::from(x); let mut t = buf();
        merge(1); let r = write!(t, "{}", b); merge(0); check!(r.is_ok()); check!(denotes(&t, b"", 10, false, x)); }
    fn c25_q_debug() { let m: u8 = any(); assume(m < 16); let x = -(m as i128); let b = BigInt::from(x); let mut t = buf();
        merge(1); let r = write!(t, "{:?}", b); merge(0); check!(r.is_ok()); check!(denotes(&t, b"", 10, false, x)); }
    fn c25_q_hex() { let n: bool = any(); let m: u8 = any(); let x = if n { -(m as i128) } else { m as i128 }; let b = BigInt::from(x); let mut t = buf();
        merge(1); let r = write!(t, "{:x}", b); merge(0); check!(r.is_ok()); check!(denotes(&t, b"0x", 16, false, x)); }
    fn c25_q_uhex() { let n: bool = any(); let m: u8 = any(); let x = if n { -(m as i128) } else { m as i128 }; let b = BigInt::from(x); let mut t = buf();
        merge(1); let r = write!(t, "{:X}", b); merge(0); check!(r.is_ok()); check!(denotes(&t, b"0x", 16, true, x)); }
    fn c25_q_bighex() { let m = 1 + pick(7) as i128; let k = [62, 64][pick(2)]; let x = m << k; let b = BigInt::from(x); let mut t = buf();
        let r = write!(t, "{:x}", b); check!(r.is_ok()); check!(denotes(&t, b"0x", 16, false, x)); }
    fn c25_q_bigdec() { let m = 1 + pick(2) as i128; let k = [62, 64][pick(2)]; let x = -(m << k); let b = BigInt::from(x); let mut t = buf();
        let r = write!(t, "{}", b); check!(r.is_ok()); check!(denotes(&t, b"", 10, false, x)); }
    fn c25_q_bin() { let n: bool = any(); let x: u8 = any(); assume(x < 16); let m = (x as u64) << [0, 29, 60][pick(3)]; let b = BigInt::from(if n { -(m as i128) } else { m as i128 }); let mut t = buf();
        let r = write!(t, "{:b}", b); check!(r.is_ok());
        // [-]0b then the 64 bits of the magnitude (leading zeros are kept)
        let neg = n && m != 0; let o = neg as usize;
        check!((t.b[0] == b'-') == neg); check!(t.b[o] == b'0' && t.b[o + 1] == b'b'); check!(t.n == o + 66);
        let mut v = 0u64; let mut ok = true; let mut i = 0; while i < 64 { let c = t.b[o + 2 + i]; ok &= c == b'0' || c == b'1'; v = v << 1 | (c & 1) as u64; i += 1; }
        check!(ok && v == m); }
    fn c25_q_parse10() { parse(10, 2) }
    fn c25_q_parse16() { parse(16, 2) }
    fn c25_q_parse2() { parse(2, 3) }
    fn c25_q_parse36() { parse(36, 1) }
    fn c25_t_parse10() { parse(10, 3) }
    fn c25_t_parse36() { parse(36, 2) }
    fn c25_t_parse16() { parse(16, 3) }
    fn c25_q_radix() { let r: u32 = any(); assume(r > 36); let c: u8 = any(); assume(c < 128 && c != b'-'); let s = [c];
        let s = unsafe { core::str::from_utf8_unchecked(&s) }; check!(BigInt::from_str_radix(s, r).is_err()); }
    fn c25_q_long() { let mut s = *b"123456789abcdef012"; let p = pick(18); let c: u8 = any(); assume(c >= b'0' && c <= b'9' || c >= b'a' && c <= b'f' || c >= b'A' && c <= b'F'); s[p] = c;
        let mut v = 0u128; for k in 0..18 { v = v << 4 | dig(s[k] | 32, 16, false) as u128; }
        let t = unsafe { core::str::from_utf8_unchecked(&s) }; merge(1); let b = BigInt::from_str_radix(t, 16); merge(0); check!(matches!(&b, Ok(b) if u128::try_from(b).ok() == Some(v))); }
    fn c25_q_round() { // text written in hexadecimal parses back
        let n: bool = any(); let m: u8 = any(); assume(m < 32); let x = if n { -(m as i128) } else { m as i128 }; let mut t = buf();
        merge(1); let r = write!(t, "{}", BigInt::from(x)); merge(0); check!(r.is_ok());
        let s = unsafe { core::str::from_utf8_unchecked(&t.b[..t.n]) };
        let b = BigInt::from_str_radix(s, 10); check!(matches!(&b, Ok(b) if is(b, x) && b.is_negative() == (x < 0))); }
}
#[inline(always)]
fn parse(radix: u32, max: usize) {
    let s: [u8; 3] = any(); let len = pick(max + 1); let neg: bool = any();
    let mut t = [b'-', s[0], s[1], s[2]];
    assume(s[0] < 128 && s[1] < 128 && s[2] < 128);
    assume(len == 0 || s[0] != b'-');
    let mut v = 0i128; let mut ok = true;
    let mut i = 0; while i < len { let d = dig(if t[i + 1] >= b'A' && t[i + 1] <= b'Z' { t[i + 1] + 32 } else { t[i + 1] }, radix, false); ok &= d != 999; v = v * radix as i128 + d as i128; i += 1; }
    let bytes = if neg { &mut t[..len + 1] } else { &mut t[1..len + 1] };
    let st = unsafe { core::str::from_utf8_unchecked(bytes) };
    merge(1);
    let r = BigInt::from_str_radix(st, radix);
    merge(0);
    cover!(r.is_err()); cover!(r.is_ok() && len == max);
    match r { Ok(b) => { check!(len == 0 || ok); if len > 0 { check!(is(&b, if neg { -v } else { v })) } } Err(_) => check!(len == 0 || !ok) }
}

/// values around the limb boundaries, low bits free
#[inline(always)]
fn show(base: i128, bits: u32, radix: u32) {
    let n: bool = any(); let m: u8 = any(); assume(m < 1 << bits);
    let x = base ^ m as i128; let x = if n { -x } else { x }; let b = BigInt::from(x); let mut t = buf();
    match radix { 10 => { let r = write!(t, "{}", b); check!(r.is_ok()); check!(denotes(&t, b"", 10, false, x)); }
        _ => { let u = pick(2) == 1; let r = if u { write!(t, "{:X}", b) } else { write!(t, "{:x}", b) }; check!(r.is_ok()); check!(denotes(&t, b"0x", 16, u, x)); } }
}
/// a long string with one free character
#[inline(always)]
fn read<const N: usize>(mut s: [u8; N], radix: u32) {
    let p = pick(N); let c: u8 = any(); assume(c < 128 && (p > 0 || c != b'-' && c != b'+')); s[p] = c; let neg = pick(2) == 1;
    let low = |c: u8| if c >= b'A' && c <= b'Z' { c + 32 } else { c };
    let mut v = 0i128; let mut ok = true; for k in 0..N { let d = dig(low(s[k]), radix, false); ok &= d != 999; v = v.wrapping_mul(radix as i128).wrapping_add(d as i128); }
    let mut t = [b'-'; 64]; let mut i = 0; while i < N { t[i + 1] = s[i]; i += 1; }
    let st = unsafe { core::str::from_utf8_unchecked(if neg { &t[..N + 1] } else { &t[1..N + 1] }) };
    merge(1); let b = BigInt::from_str_radix(st, radix); merge(0);
    if ok { check!(matches!(&b, Ok(b) if is(b, if neg { -v } else { v }))) } else { check!(b.is_err()) }
}
harness! {
    fn c25_q_dec32() { show((1 << 32) - 8, 3, 10) }
    fn c25_q_dec62() { show((1 << 62) - 4, 3, 10) }
    fn c25_q_dec63() { show((1 << 63) - 4, 3, 10) }
    fn c25_q_dec64() { show((1 << 64) + 0x3330, 2, 10) }
    fn c25_t_dec64e() { show(1 << 64, 2, 10) }
    fn c25_q_dec1e18() { show(1_000_000_000_000_000_000, 3, 10) }
    fn c25_q_dec1e19() { show(10_000_000_000_000_000_000, 3, 10) }
    fn c25_q_dec1e30() { show(1_000_000_000_000_000_000_000_000_000_000, 1, 10) }
    fn c25_q_dec127() { show(i128::MAX - 3, 2, 10) }
    fn c25_q_hex62() { show((1 << 62) - 4, 3, 16) }
    fn c25_q_hex64() { show((1 << 65) - 4, 2, 16) }
    fn c25_q_hex127() { show(i128::MAX - 7, 3, 16) }
    fn c25_q_read10() { read(*b"18446744073709551615", 10) }
    fn c25_q_read10z() { read(*b"00100000000000000000000007", 10) }
    fn c25_q_read16() { read(*b"fFffFfff00000000fffffFff", 16) }
    fn c25_q_read2() { read(*b"1000000000000000000000000000000000000000000000000000000000001", 2) }
    fn c25_q_read36() { read(*b"zZ0aBz9zzzz1", 36) }
}
