//! C11: acceptance of handshake signatures.
use core::mem::ManuallyDrop;
use tls_core::{
    anchors::RootCertStore,
    key::Certificate,
    msgs::{enums::SignatureScheme, handshake::DigitallySignedStruct},
    verify::*,
};
use vk::{any, assume, harnesses, idx, reach};
use webpki::model::{SCRIPT, seen};

/// The algorithms (indices as in `webpki::which`) a scheme stands for, in TLS 1.2 and in TLS 1.3.
fn algs(scheme: u16) -> (&'static [usize], &'static [usize]) {
    match scheme {
        0x0403 => (&[0, 2], &[0]),
        0x0503 => (&[1, 3], &[3]),
        0x0807 => (&[4], &[4]),
        0x0401 => (&[5], &[]),
        0x0501 => (&[6], &[]),
        0x0601 => (&[7], &[]),
        0x0804 => (&[8], &[8]),
        0x0805 => (&[9], &[9]),
        0x0806 => (&[10], &[10]),
        _ => (&[], &[]),
    }
}

const UNSUPPORTED_FOR_KEY: u8 = 5;

struct Out {
    ok: bool,
    alg: Option<SignatureAlgorithm>,
}

/// `how`: 0 TLS 1.2 check, 1 TLS 1.3 check, 2 the check that reports the algorithm.
fn run(how: u8, scheme: u16) {
    let parse: u8 = any();
    assume(parse <= 2);
    let sig: [u8; 11] = any();
    for i in 0..11 {
        assume(sig[i] <= 5);
    }
    let (m, s): ([u8; 3], [u8; 2]) = (any(), any());
    let cert = ManuallyDrop::new(Certificate(vec![1, 2]));
    let dss = ManuallyDrop::new(DigitallySignedStruct::new(SignatureScheme::from(scheme), s.to_vec()));
    unsafe {
        SCRIPT.parse = parse;
        SCRIPT.sig = sig;
        webpki::model::MSG = core::slice::from_raw_parts(m.as_ptr(), 3);
        webpki::model::SIG = core::slice::from_raw_parts(s.as_ptr(), 2);
    }
    let v = ManuallyDrop::new(WebPkiVerifier::new(RootCertStore::empty(), None));
    let o = match how {
        0 => Out { ok: ManuallyDrop::new(v.verify_tls12_signature(&m, &cert, &dss)).is_ok(), alg: None },
        1 => Out { ok: ManuallyDrop::new(v.verify_tls13_signature(&m, &cert, &dss)).is_ok(), alg: None },
        _ => match &*ManuallyDrop::new(verify_sig_determine_alg(&cert, &m, &dss)) {
            Ok(a) => Out { ok: true, alg: Some(*a) },
            Err(_) => Out { ok: false, alg: None },
        },
    };
    let list = if how == 1 { algs(scheme).1 } else { algs(scheme).0 };
    let mut verified = None;
    let mut open = parse == 0;
    for &a in list {
        if open && sig[a] == 0 {
            verified = Some(a);
        }
        open &= sig[a] == UNSUPPORTED_FOR_KEY;
    }
    assert!(o.ok == verified.is_some());
    let w = seen();
    if o.ok {
        assert!(w.sigs > 0 && w.sig_args_ok && w.sig_cert == cert.0.as_ptr());
        if let Some(a) = o.alg {
            assert!(Some(number(a)) == verified);
        }
    }
    if list.is_empty() {
        assert!(w.sigs == 0);
    }
    reach!(o.ok || list.is_empty());
    reach!(!o.ok);
    reach!(list.len() < 2 || (o.ok && sig[list[1]] == 0 && sig[list[0]] != 0));
}

fn number(a: SignatureAlgorithm) -> usize {
    use SignatureAlgorithm::*;
    match a {
        ECDSA_NISTP256_SHA256 => 0,
        ECDSA_NISTP256_SHA384 => 1,
        ECDSA_NISTP384_SHA256 => 2,
        ECDSA_NISTP384_SHA384 => 3,
        ED25519 => 4,
        RSA_PKCS1_2048_8192_SHA256 => 5,
        RSA_PKCS1_2048_8192_SHA384 => 6,
        RSA_PKCS1_2048_8192_SHA512 => 7,
        RSA_PSS_2048_8192_SHA256_LEGACY_KEY => 8,
        RSA_PSS_2048_8192_SHA384_LEGACY_KEY => 9,
        RSA_PSS_2048_8192_SHA512_LEGACY_KEY => 10,
    }
}

/// Every scheme that is not one of the nine.
fn other(how: u8) {
    let scheme: u16 = any();
    assume(algs(scheme).0.is_empty());
    run(how, scheme);
}

macro_rules! schemes { ($($name:ident $how:literal $scheme:literal)*) => {
    harnesses! {
        $(#[kani::stub(std::fmt::format, crate::no_format)] fn $name() unwind 12 { run($how, $scheme) })*
        #[kani::stub(std::fmt::format, crate::no_format)]
        fn tls12_other() unwind 12 { other(0) }
        #[kani::stub(std::fmt::format, crate::no_format)]
        fn tls13_other() unwind 12 { other(1) }
        #[kani::stub(std::fmt::format, crate::no_format)]
        fn alg_other() unwind 12 { other(2) }
        fn advertised() unwind 12 {
            let v = ManuallyDrop::new(WebPkiVerifier::verification_schemes());
            let i = idx(v.len());
            let (a, _) = algs(v[i].get_u16());
            assert!(!a.is_empty());
            let j = idx(v.len());
            assert!(i == j || v[i].get_u16() != v[j].get_u16());
        }
    }
} }
schemes! {
    tls12_ecdsa256 0 0x0403 tls12_ecdsa384 0 0x0503 tls12_ed25519 0 0x0807 tls12_pkcs256 0 0x0401 tls12_pkcs384 0 0x0501 tls12_pkcs512 0 0x0601
    tls12_pss256 0 0x0804 tls12_pss384 0 0x0805 tls12_pss512 0 0x0806
    tls13_ecdsa256 1 0x0403 tls13_ecdsa384 1 0x0503 tls13_ed25519 1 0x0807 tls13_pkcs256 1 0x0401 tls13_pkcs384 1 0x0501 tls13_pkcs512 1 0x0601
    tls13_pss256 1 0x0804 tls13_pss384 1 0x0805 tls13_pss512 1 0x0806
    alg_ecdsa256 2 0x0403 alg_ecdsa384 2 0x0503 alg_ed25519 2 0x0807 alg_pkcs256 2 0x0401 alg_pkcs384 2 0x0501 alg_pkcs512 2 0x0601
    alg_pss256 2 0x0804 alg_pss384 2 0x0805 alg_pss512 2 0x0806
}
