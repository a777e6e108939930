//! C14: the TLS 1.2 PRF.
use hmac::Mac;
use tls_core::prf::prf;
use vk::{any, harnesses, idx};

fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut h = <hmac::Hmac<sha2::Sha256> as Mac>::new_from_slice(key).unwrap();
    h.update(msg);
    let mut r = [0u8; 32];
    let o = h.finalize().into_bytes();
    for i in 0..32 {
        r[i] = o[i];
    }
    r
}

/// RFC 5246 section 5: `N` bytes of P_SHA256(secret, label + seed), `L` = label and seed together.
fn check<const N: usize, const S: usize, const A: usize, const B: usize>() {
    let secret: [u8; S] = any();
    let label: [u8; A] = any();
    let seed: [u8; B] = any();
    let mut out = [0x5a; N];
    assert!(prf(&mut out, &secret, &label, &seed).is_ok());

    let mut ls = [0u8; 16];
    for i in 0..A {
        ls[i] = label[i];
    }
    for i in 0..B {
        ls[A + i] = seed[i];
    }
    let ls = &ls[..A + B];
    let mut a = hmac(&secret, ls);
    let mut at = 0;
    let i = if N > 0 { idx(N) } else { 0 };
    while at < N {
        let mut m = [0u8; 48];
        for j in 0..32 {
            m[j] = a[j];
        }
        for j in 0..A + B {
            m[32 + j] = ls[j];
        }
        let p = hmac(&secret, &m[..32 + A + B]);
        if i >= at && i < at + 32 {
            assert!(out[i] == p[i - at]);
        }
        a = hmac(&secret, &a);
        at += 32;
    }
}

harnesses! {
    fn n0() unwind 58 { check::<0, 3, 2, 3>() }
    fn n1() unwind 58 { check::<1, 3, 2, 3>() }
    fn n12() unwind 58 { check::<12, 4, 3, 3>() }
    fn n31() unwind 58 { check::<31, 3, 2, 3>() }
    fn n32() unwind 58 { check::<32, 3, 2, 3>() }
    fn n33() unwind 58 { check::<33, 3, 2, 3>() }
    fn n48() unwind 58 { check::<48, 6, 2, 4>() }
    fn n64() unwind 66 { check::<64, 3, 2, 3>() }
    fn n65() unwind 66 { check::<65, 3, 1, 4>() }
    fn n100() unwind 102 { check::<100, 3, 2, 3>() }
    fn empty_seed() unwind 58 { check::<40, 3, 4, 0>() }
    fn empty_label() unwind 58 { check::<40, 3, 0, 4>() }
    fn empty_secret() unwind 58 { check::<40, 0, 2, 2>() }
}
