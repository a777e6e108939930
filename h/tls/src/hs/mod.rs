//! C06, C07, C08: handshake messages and their parts.
//!
//! A template gives the shape of an input: numbers are bytes, `S` is any byte. What is read from a
//! well formed shape has exactly the fields at their places and encodes to the input again.
use core::mem::ManuallyDrop;
pub use tls_core::msgs::{base::*, codec::{Codec, Reader}, enums::*, handshake::*};
pub use vk::{any, assume, harnesses, harnesses_m, idx, reach};

pub const S: i16 = -1;

/// Fills the template; some spare room behind.
#[inline(always)]
pub fn fill<const N: usize>(t: [i16; N]) -> [u8; 64] {
    let mut b = [0u8; 64];
    let mut i = 0;
    // sixteen at a time, so that a small unwinding bound suffices
    macro_rules! step { ($($z:tt)*) => { $( if i < N { let _ = $z; b[i] = if t[i] < 0 { any() } else { t[i] as u8 }; i += 1; } )* } }
    while i < N {
        step!(0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0);
    }
    b
}

/// `t` is accepted whole and `check` holds for the value.
#[inline(always)]
pub fn good<T: Codec, const N: usize>(t: [i16; N], check: impl FnOnce(&T, &[u8; 64])) {
    let b = fill(t);
    let mut r = Reader::init(&b[..N]);
    let got = ManuallyDrop::new(T::read(&mut r));
    assert!(got.is_some());
    assert!(r.left() == 0);
    if let Some(x) = &*got {
        check(x, &b);
    }
}

/// `x` encodes to `want`.
#[inline(always)]
pub fn enc<T: Codec, const N: usize>(x: T, want: [u8; N]) {
    let x = ManuallyDrop::new(x);
    let e = ManuallyDrop::new(x.get_encoding());
    assert!(e.len() == N);
    let i = idx(N);
    assert!(e[i] == want[i]);
}

/// With any other byte at `at`, `t` is refused.
#[inline(always)]
pub fn bad<T: Codec, const N: usize>(t: [i16; N], at: usize) {
    let mut b = fill(t);
    b[at] = any();
    assume(b[at] != t[at] as u8);
    let mut r = Reader::init(&b[..N]);
    let got = ManuallyDrop::new(T::read(&mut r));
    // a part of a message that stops early leaves bytes over, which its container refuses
    assert!(got.is_none() || r.any_left());
    reach!(true);
}

/// `t` is refused whatever its open bytes.
#[inline(always)]
pub fn none<T: Codec, const N: usize>(t: [i16; N]) {
    let b = fill(t);
    let mut r = Reader::init(&b[..N]);
    let got = ManuallyDrop::new(T::read(&mut r));
    assert!(got.is_none() || r.any_left());
}

/// The big-endian number of two bytes.
pub fn w(b: &[u8], i: usize) -> u16 {
    (b[i] as u16) << 8 | b[i + 1] as u16
}
/// `x` is the `n` bytes at `at`.
pub fn eqs(x: &[u8], b: &[u8], at: usize, n: usize) {
    assert!(x.len() == n);
    if n > 0 {
        let i = idx(n);
        assert!(x[i] == b[at + i]);
    }
}
/// A vector of at most two; an allocation of more than 64 bytes would lose constants.
pub fn v1<T>(a: T) -> Vec<T> {
    let mut v = Vec::with_capacity(2);
    v.push(a);
    v
}
/// For elements of more than 32 bytes.
pub fn one<T>(a: T) -> Vec<T> {
    let mut v = Vec::with_capacity(1);
    v.push(a);
    v
}
pub fn v2<T>(a: T, b: T) -> Vec<T> {
    let mut v = v1(a);
    v.push(b);
    v
}

pub mod body;
pub mod cext;
pub mod hello;
pub mod list;
pub mod other;
pub mod sext;
