//! C12: choice of suite, key-exchange parameters.
use core::mem::ManuallyDrop;
use tls_core::{
    msgs::{
        base::Payload,
        codec::Codec,
        enums::{CipherSuite, NamedGroup, ProtocolVersion, SignatureAlgorithm, SignatureScheme},
        handshake::{ClientECDHParams, ECDHEServerKeyExchange, DecomposedSignatureScheme, KeyExchangeAlgorithm, ServerECDHParams, ServerKeyExchangePayload},
    },
    suites::*,
    versions::{EnabledVersions, ALL_VERSIONS, TLS12, TLS13},
};
use vk::{any, assume, harnesses, harnesses_m, idx, reach};

fn all() -> [SupportedCipherSuite; 9] {
    [
        TLS13_AES_256_GCM_SHA384,
        TLS13_AES_128_GCM_SHA256,
        TLS13_CHACHA20_POLY1305_SHA256,
        TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
        TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
        TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
        TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
        TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
        TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
    ]
}
/// Registered number, TLS 1.3?, ECDSA?, hash output length, fixed IV, explicit nonce.
const INFO: [(u16, bool, bool, usize, usize, usize); 9] = [
    (0x1302, true, false, 48, 0, 0),
    (0x1301, true, false, 32, 0, 0),
    (0x1303, true, false, 32, 0, 0),
    (0xc02c, false, true, 48, 4, 8),
    (0xc02b, false, true, 32, 4, 8),
    (0xcca9, false, true, 32, 12, 0),
    (0xc030, false, false, 48, 4, 8),
    (0xc02f, false, false, 32, 4, 8),
    (0xcca8, false, false, 32, 12, 0),
];

/// Three suites proposed out of all 2^16 codes, three enabled out of all nine suites.
fn choose(client_first: bool) {
    let c: [u16; 3] = any();
    let client = [CipherSuite::from(c[0]), CipherSuite::from(c[1]), CipherSuite::from(c[2])];
    let a = all();
    let s: [usize; 3] = [idx(9), idx(9), idx(9)];
    let server = [a[s[0]], a[s[1]], a[s[2]]];
    let (mut want, mut i) = (0u16, 0);
    while i < 3 {
        let mut j = 0;
        while j < 3 {
            let (x, y) = if client_first { (c[i], INFO[s[j]].0) } else { (c[j], INFO[s[i]].0) };
            if x == y && want == 0 {
                want = x;
            }
            j += 1;
        }
        i += 1;
    }
    let got = if client_first { choose_ciphersuite_preferring_client(&client, &server) } else { choose_ciphersuite_preferring_server(&client, &server) };
    match got {
        None => assert!(want == 0),
        Some(x) => {
            assert!(want != 0 && x.suite().get_u16() == want);
            assert!(x.tls13().is_some() == (want >> 8 == 0x13));
        }
    }
    reach!(got.is_none());
    reach!(want == 0xc02f);
    reach!(want == 0x1301);
}

/// Two suites, some of which are to be kept.
fn reduce(j: usize, k: usize, keep: impl Fn(usize) -> bool, f: impl Fn(&[SupportedCipherSuite]) -> Vec<SupportedCipherSuite>) {
    let a = all();
    let got = ManuallyDrop::new(f(&[a[j], a[k]]));
    let (x, y) = (keep(j), keep(k));
    assert!(got.len() == x as usize + y as usize);
    if x {
        assert!(got[0].suite().get_u16() == INFO[j].0);
    }
    if y {
        assert!(got[x as usize].suite().get_u16() == INFO[k].0);
    }
    reach!(x);
    reach!(!y);
}

fn bytes<const N: usize>(b: &[u8; N]) -> ManuallyDrop<Vec<u8>> {
    let mut v = Vec::with_capacity(N + 8);
    for i in 0..N {
        v.push(b[i]);
    }
    ManuallyDrop::new(v)
}
/// ECDH parameters in `N` bytes with the right length, any group.
fn params<const N: usize>() {
    let mut b: [u8; N] = any();
    b[0] = 3;
    b[3] = (N - 4) as u8;
    let v = bytes(&b);
    let got = ManuallyDrop::new(tls12::decode_ecdh_params::<ServerECDHParams>(&v));
    let Some(p) = &*got else { panic!("refused") };
    let g = p.curve_params.named_group.get_u16();
    assert!(g == (b[1] as u16) << 8 | b[2] as u16);
    assert!(p.curve_params.curve_type.get_u8() == 3);
    assert!(p.public.0.len() == N - 4);
    if N > 4 {
        let i = idx(N - 4);
        assert!(p.public.0[i] == b[4 + i]);
    }
    reach!(g == 23);
    reach!(g == 29);
}
/// Any other curve type, and any wrong length, is refused.
fn params_bad<const N: usize>() {
    let b: [u8; N] = any();
    assume(N < 4 || b[0] != 3 || b[N.min(3)] as usize != N - 4);
    let v = bytes(&b);
    let got = ManuallyDrop::new(tls12::decode_ecdh_params::<ServerECDHParams>(&v));
    assert!(got.is_none());
    reach!(b[0] == 3);
}
fn client_params<const N: usize>() {
    let mut b: [u8; N] = any();
    b[0] = (N - 1) as u8;
    let v = bytes(&b);
    let got = ManuallyDrop::new(tls12::decode_ecdh_params::<ClientECDHParams>(&v));
    let Some(p) = &*got else { panic!("refused") };
    assert!(p.public.0.len() == N - 1);
    let i = idx(N - 1);
    assert!(p.public.0[i] == b[1 + i]);
}
fn client_params_bad<const N: usize>() {
    let b: [u8; N] = any();
    assume(b[0] as usize != N - 1);
    let v = bytes(&b);
    let got = ManuallyDrop::new(tls12::decode_ecdh_params::<ClientECDHParams>(&v));
    assert!(got.is_none());
    reach!(b[0] == 255);
}
/// A whole key exchange message body with a point of 4 and a signature of 3 bytes.
fn exchange<const EXTRA: usize>(k: KeyExchangeAlgorithm) -> ([u8; 32], ManuallyDrop<Option<ECDHEServerKeyExchange>>) {
    let b: [u8; 32] = any();
    let mut v = Vec::with_capacity(32);
    v.extend_from_slice(&[3, b[0], b[1], 4, b[2], b[3], b[4], b[5], b[30], b[31], 0, 3, b[12], b[13], b[14]]);
    if EXTRA > 0 {
        v.push(b[15]);
    }
    let pl = ManuallyDrop::new(ServerKeyExchangePayload::Unknown(Payload::new(v)));
    (b, ManuallyDrop::new(pl.unwrap_given_kxa(&k)))
}
fn exchange_good(what: u8) {
    let (b, r) = exchange::<0>(KeyExchangeAlgorithm::ECDHE);
    assert!(r.is_some());
    if let Some(e) = &*r {
        match what {
            0 => assert!(e.params.curve_params.named_group.get_u16() == (b[0] as u16) << 8 | b[1] as u16),
            1 => assert!(e.dss.scheme.get_u16() == (b[30] as u16) << 8 | b[31] as u16),
            2 => assert!(e.params.public.0.len() == 4 && e.dss.sig.0.len() == 3),
            3 => assert!(e.params.public.0[0] == b[2] && e.params.public.0[3] == b[5]),
            _ => assert!(e.dss.sig.0[0] == b[12] && e.dss.sig.0[2] == b[14]),
        }
    }
}
/// The parameters to be signed are those that arrived.
fn reencode() {
    let g: u16 = any();
    let b: [u8; 5] = any();
    let mut out = Vec::with_capacity(64);
    ManuallyDrop::new(ServerECDHParams::new(NamedGroup::from(g), &b)).encode(&mut out);
    assert!(out.len() == 9 && out[0] == 3 && out[1] == (g >> 8) as u8 && out[2] == g as u8 && out[3] == 5);
    let i = idx(5);
    assert!(out[4 + i] == b[i]);
}

fn usable(i: usize, n: u8) -> bool {
    INFO[i].1 || (n == 1 && !INFO[i].2) || (n == 3 && INFO[i].2)
}
/// Three concrete suites, one concrete algorithm.
fn sigalg(n: u8, k: [usize; 3]) {
    let a = all();
    let got = ManuallyDrop::new(reduce_given_sigalg(&[a[k[0]], a[k[1]], a[k[2]]], SignatureAlgorithm::from(n)));
    let mut m = 0;
    for i in 0..3 {
        if usable(k[i], n) {
            assert!(m < got.len());
            assert!(got[m].suite().get_u16() == INFO[k[i]].0);
            m += 1;
        }
    }
    assert!(got.len() == m);
}

harnesses! {
    fn choose_client() unwind 5 { choose(true) }
    fn choose_server() unwind 5 { choose(false) }
    fn choose_empty() unwind 4 {
        let c: u16 = any();
        assert!(choose_ciphersuite_preferring_client(&[], &[TLS13_AES_256_GCM_SHA384]).is_none());
        assert!(choose_ciphersuite_preferring_server(&[CipherSuite::from(c)], &[]).is_none());
    }
    fn usable_sigalg() unwind 8 {
        let n: u8 = any();
        let k = idx(9);
        assert!(all()[k].usable_for_signature_algorithm(SignatureAlgorithm::from(n)) == usable(k, n));
        reach!(n == 1 && k == 8);
        reach!(n == 77 && k == 2);
    }
    fn reduce_sigalg_rsa() unwind 8 { sigalg(1, [7, 4, 0]) }
    fn reduce_sigalg_ecdsa() unwind 8 { sigalg(3, [8, 3, 4]) }
    fn reduce_sigalg_none() unwind 8 { sigalg(0, [6, 5, 3]) }
    fn reduce_version() unwind 8 {
        let n: u16 = any();
        let (j, k) = (idx(9), idx(9));
        reduce(j, k, |i| n == if INFO[i].1 { 0x0304 } else { 0x0303 }, |a| reduce_given_version(a, ProtocolVersion::from(n)));
    }
    fn sigscheme_for_suites() unwind 8 {
        let n: u16 = any();
        let scheme = SignatureScheme::from(n);
        let rsa = n == 0x0201 || n == 0x0401 || n == 0x0501 || n == 0x0601 || n == 0x0804 || n == 0x0805 || n == 0x0806;
        let ec = n == 0x0403 || n == 0x0503 || n == 0x0603;
        assert!((scheme.sign() == SignatureAlgorithm::RSA) == rsa);
        assert!((scheme.sign() == SignatureAlgorithm::ECDSA) == ec);
        let k = idx(9);
        let s = [all()[k]];
        // suites with an ECDSA key also take ED25519, which the schemes without an algorithm stand for
        let want = INFO[k].1 || if INFO[k].2 { ec || n == 0x0807 } else { rsa };
        let got = compatible_sigscheme_for_suites(scheme, &s);
        assert!(!want || got);
        assert!(!got || want || (INFO[k].2 && !rsa));
        reach!(got);
        reach!(!got);
    }
    fn table() unwind 12 {
        let a = all();
        let k = idx(9);
        let s = &a[k];
        let (code, t13, ecdsa, hash, iv, nonce) = INFO[k];
        assert!(s.suite().get_u16() == code);
        assert!(s.tls13().is_some() == t13);
        assert!(s.hash_algorithm().output_len() == hash);
        assert!(s.version().version.get_u16() == if t13 { 0x0304 } else { 0x0303 });
        if let SupportedCipherSuite::Tls12(i) = s {
            assert!(matches!(i.kx, KeyExchangeAlgorithm::ECDHE));
            assert!(i.fixed_iv_len == iv && i.explicit_nonce_len == nonce);
            let j = idx(i.sign.len());
            let n = i.sign[j].get_u16();
            if ecdsa {
                assert!(n == 0x0807 || n == 0x0603 || n == 0x0503 || n == 0x0403);
            } else {
                assert!(n == 0x0806 || n == 0x0805 || n == 0x0804 || n == 0x0601 || n == 0x0501 || n == 0x0401);
            }
        }
        // the suites offered by default: TLS 1.2, AES-128-GCM only
        let d = idx(DEFAULT_CIPHER_SUITES.len());
        let n = DEFAULT_CIPHER_SUITES[d].suite().get_u16();
        assert!(n == 0xc02b || n == 0xc02f);
    }
    fn resolve() unwind 8 {
        let o: [u16; 2] = any();
        let offered = [SignatureScheme::from(o[0]), SignatureScheme::from(o[1])];
        let SupportedCipherSuite::Tls12(s) = TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 else { panic!() };
        let got = ManuallyDrop::new(s.resolve_sig_schemes(&offered));
        let mut n = 0;
        for p in [0x0807u16, 0x0603, 0x0503, 0x0403] {
            if o[0] == p || o[1] == p {
                assert!(n < got.len());
                assert!(got[n].get_u16() == p);
                n += 1;
            }
        }
        assert!(got.len() == n);
        reach!(n == 2);
        reach!(n == 0);
    }
    fn versions() unwind 5 {
        let n: u16 = any();
        let v = ProtocolVersion::from(n);
        let (a, b): (bool, bool) = (any(), any());
        let list: &[&'static tls_core::versions::SupportedProtocolVersion] =
            if a && b { &[&TLS13, &TLS12] } else if a { &[&TLS12] } else if b { &[&TLS13] } else { &[] };
        let e = EnabledVersions::new(list);
        assert!(e.contains(v) == ((a && n == 0x0303) || (b && n == 0x0304)));
        assert!(EnabledVersions::new(ALL_VERSIONS).contains(v) == (n == 0x0303));
        reach!(a && b && n == 0x0304);
    }
    fn randoms() unwind 4 {
        let (a, b): ([u8; 32], [u8; 32]) = (any(), any());
        let r = tls12::join_randoms(&a, &b);
        let i = idx(32);
        assert!(r[i] == a[i] && r[32 + i] == b[i]);
    }
}
pub mod m {
    use super::*;
    harnesses_m! {
        fn params_4() unwind 8 { params::<4>() }
        fn params_9() unwind 13 { params::<9>() }
        fn client_6() unwind 10 { client_params::<6>() }
        fn exchange_good_0() unwind 10 { exchange_good(0) }
        fn exchange_good_1() unwind 10 { exchange_good(1) }
        fn exchange_good_2() unwind 10 { exchange_good(2) }
        fn exchange_good_3() unwind 10 { exchange_good(3) }
        fn exchange_extra() unwind 10 { assert!(exchange::<1>(KeyExchangeAlgorithm::ECDHE).1.is_none()) }
        fn exchange_other() unwind 10 {
            assert!(exchange::<0>(KeyExchangeAlgorithm::ECDH).1.is_none());
            assert!(exchange::<0>(KeyExchangeAlgorithm::DHE).1.is_none());
        }
        fn exchange_other2() unwind 10 {
            assert!(exchange::<0>(KeyExchangeAlgorithm::RSA).1.is_none());
            assert!(exchange::<0>(KeyExchangeAlgorithm::BulkOnly).1.is_none());
            assert!(exchange::<0>(KeyExchangeAlgorithm::DH).1.is_none());
        }
        fn reencode() unwind 10 { super::reencode() }
    }
}
pub mod bad {
    use super::*;
    harnesses! {
        fn params_3() unwind 6 { params_bad::<3>() }
        fn params_4() unwind 8 { params_bad::<4>() }
        fn params_6() unwind 10 { params_bad::<6>() }
        fn client_1() unwind 6 { client_params_bad::<1>() }
        fn client_4() unwind 10 { client_params_bad::<4>() }
    }
}
