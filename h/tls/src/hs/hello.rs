//! Session ids and hellos.
use super::*;

/// A template from one with the 32 random bytes left out: they go in at `at`.
const fn rnd<const N: usize, const M: usize>(t: [i16; N], at: usize) -> [i16; M] {
    assert!(M == N + 32);
    let mut o = [S; M];
    let mut i = 0;
    while i < N {
        o[if i < at { i } else { i + 32 }] = t[i];
        i += 1;
    }
    o
}

const CH: [i16; 48] = rnd([S, S, 1, S, 0, 2, S, S, 1, S, 0, 4, 0x12, 0x34, 0, 0], 2);
const CH2: [i16; 50] = rnd([S, S, 0, 0, 4, S, S, S, S, 2, S, S, 0, 4, 0x12, 0x34, 0, 0], 2);
/// A server hello without version and random.
const SH: [i16; 15] = [2, S, S, S, S, S, 0, 7, 0x12, 0x34, 0, 3, S, S, S];
const HRR: [i16; 14] = [2, S, S, S, S, 0, 0, 6, 0, 0x2b, 0, 2, S, S];

pub mod read {
    use super::*;
    harnesses_m! {
        fn session_0() unwind 6 { good([0], |x: &SessionID, _| assert!(x.is_empty() && x.len() == 0)) }
        fn session_2() unwind 6 {
            good([2, S, S], |x: &SessionID, b| {
                assert!(x.len() == 2 && !x.is_empty());
                let e = ManuallyDrop::new(x.get_encoding());
                eqs(&e, b, 0, 3);
            })
        }
        fn session_32() unwind 6 {
            let mut t = [S; 33];
            t[0] = 32;
            good(t, |x: &SessionID, b| {
                assert!(x.len() == 32);
                let e = ManuallyDrop::new(x.get_encoding());
                eqs(&e, b, 0, 33);
            })
        }
        fn client() unwind 6 {
            good(CH, |x: &ClientHelloPayload, b| {
                assert!(x.client_version.get_u16() == w(b, 0));
                eqs(&x.random.0, b, 2, 32);
                assert!(x.session_id.len() == 1);
                assert!(x.cipher_suites.len() == 1 && x.cipher_suites[0].get_u16() == w(b, 38));
                assert!(x.compression_methods.len() == 1 && x.compression_methods[0].get_u8() == b[41]);
                assert!(x.extensions.len() == 1);
                let ClientExtension::Unknown(u) = &x.extensions[0] else { panic!() };
                assert!(u.typ.get_u16() == 0x1234 && u.payload.0.is_empty());
            })
        }
        fn client_lists() unwind 6 {
            good(CH2, |x: &ClientHelloPayload, b| {
                assert!(x.session_id.is_empty());
                assert!(x.cipher_suites.len() == 2 && x.cipher_suites[0].get_u16() == w(b, 37) && x.cipher_suites[1].get_u16() == w(b, 39));
                assert!(x.compression_methods.len() == 2 && x.compression_methods[0].get_u8() == b[42] && x.compression_methods[1].get_u8() == b[43]);
            })
        }
        fn server() unwind 6 {
            good(SH, |x: &ServerHelloPayload, b| {
                assert!(x.session_id.len() == 2);
                assert!(x.cipher_suite.get_u16() == w(b, 3) && x.compression_method.get_u8() == b[5]);
                assert!(x.extensions.len() == 1);
                let ServerExtension::Unknown(u) = &x.extensions[0] else { panic!() };
                assert!(u.typ.get_u16() == 0x1234);
                eqs(&u.payload.0, b, 12, 3);
            })
        }
        fn server_no_extensions() unwind 6 {
            good([0, S, S, S, 0, 0], |x: &ServerHelloPayload, b| {
                assert!(x.session_id.is_empty() && x.extensions.is_empty());
                assert!(x.cipher_suite.get_u16() == w(b, 1) && x.compression_method.get_u8() == b[3]);
            })
        }
        fn retry() unwind 6 {
            good(HRR, |x: &HelloRetryRequest, b| {
                assert!(x.session_id.len() == 2 && x.cipher_suite.get_u16() == w(b, 3));
                assert!(x.extensions.len() == 1);
                let HelloRetryExtension::SupportedVersions(v) = &x.extensions[0] else { panic!() };
                assert!(v.get_u16() == w(b, 12));
            })
        }
    }
}
pub mod write {
    use super::*;
    use core::mem::ManuallyDrop;
    fn sid<const N: usize>(b: [u8; N]) -> SessionID {
        let x = ManuallyDrop::new(SessionID::read_bytes(&b));
        assert!(x.is_some());
        x.unwrap()
    }
    harnesses_m! {
        fn session_empty() unwind 6 { enc(SessionID::empty(), [0]) }
        fn client() unwind 6 {
            let r: [u8; 32] = any();
            let [a, b, c, d, e, f]: [u8; 6] = any();
            let x = ManuallyDrop::new(ClientHelloPayload {
                client_version: ProtocolVersion::from(w(&[a, b], 0)),
                random: Random(r),
                session_id: sid([1, c]),
                cipher_suites: v1(CipherSuite::from(w(&[d, e], 0))),
                compression_methods: v1(Compression::from(f)),
                extensions: one(ClientExtension::EarlyData),
            });
            let o = ManuallyDrop::new(x.get_encoding());
            assert!(o.len() == 48);
            eqs(&o[2..34], &r, 0, 32);
            assert!(o[0] == a && o[1] == b && o[34] == 1 && o[35] == c);
            eqs(&o[36..], &[0, 2, d, e, 1, f, 0, 4, 0, 0x2a, 0, 0], 0, 12);
        }
        fn server() unwind 6 {
            let r: [u8; 32] = any();
            let [a, b, c, d, e, f]: [u8; 6] = any();
            let x = ManuallyDrop::new(ServerHelloPayload {
                legacy_version: ProtocolVersion::from(w(&[a, b], 0)),
                random: Random(r),
                session_id: sid([1, c]),
                cipher_suite: CipherSuite::from(w(&[d, e], 0)),
                compression_method: Compression::from(f),
                extensions: one(ServerExtension::ExtendedMasterSecretAck),
            });
            let o = ManuallyDrop::new(x.get_encoding());
            assert!(o.len() == 45);
            eqs(&o[2..34], &r, 0, 32);
            assert!(o[0] == a && o[1] == b && o[34] == 1 && o[35] == c);
            eqs(&o[36..], &[d, e, f, 0, 4, 0, 0x17, 0, 0], 0, 9);
        }
        fn retry() unwind 6 {
            let [a, b, c, d, e]: [u8; 5] = any();
            let x = ManuallyDrop::new(HelloRetryRequest {
                legacy_version: ProtocolVersion::from(w(&[a, b], 0)),
                session_id: sid([1, c]),
                cipher_suite: CipherSuite::from(w(&[d, e], 0)),
                extensions: Vec::with_capacity(1),
            });
            let o = ManuallyDrop::new(x.get_encoding());
            assert!(o.len() == 41);
            assert!(o[0] == a && o[1] == b && o[34] == 1 && o[35] == c);
            eqs(&o[2..34], &super::RETRY, 0, 32);
            eqs(&o[36..], &[d, e, 0, 0, 0], 0, 5);
        }
    }
}
/// The random value that marks a hello retry request (RFC 8446, section 4.1.3).
const RETRY: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e,
    0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];
pub mod wrong {
    use super::*;
    #[inline(always)]
    fn no<T, const N: usize>(t: [i16; N], read: fn(&mut Reader) -> Option<T>) {
        let b = fill(t);
        let got = ManuallyDrop::new(read(&mut Reader::init(&b[..N])));
        assert!(got.is_none());
    }
    harnesses! {
        fn session_long() unwind 6 {
            // any length above 32, whatever is there
            let b: [u8; 64] = any();
            assume(b[0] > 32);
            assert!(SessionID::read(&mut Reader::init(&b)).is_none());
        }
        fn session_short() unwind 6 {
            let b: [u8; 8] = any();
            assume(b[0] > 7);
            assert!(SessionID::read(&mut Reader::init(&b)).is_none());
        }
        fn client_no_extensions() unwind 6 {
            const T: [i16; 44] = rnd([S, S, 1, S, 0, 2, S, S, 1, S, 0, 0], 2);
            none::<ClientHelloPayload, 44>(T);
        }
        fn client_extensions_missing() unwind 6 {
            const T: [i16; 42] = rnd([S, S, 1, S, 0, 2, S, S, 1, S], 2);
            none::<ClientHelloPayload, 42>(T);
        }
        fn client_extra() unwind 6 {
            // a byte after the extensions
            const T: [i16; 49] = rnd([S, S, 1, S, 0, 2, S, S, 1, S, 0, 4, 0x12, 0x34, 0, 0, S], 2);
            let b = fill(T);
            let got = ManuallyDrop::new(ClientHelloPayload::read(&mut Reader::init(&b[..49])));
            assert!(got.is_none());
        }
        fn client_ext_len_0() unwind 6 { let mut t = CH; t[43] = 0; no(t, ClientHelloPayload::read) }
        fn client_ext_len_1() unwind 6 { let mut t = CH; t[43] = 1; no(t, ClientHelloPayload::read) }
        fn client_ext_len_3() unwind 6 { let mut t = CH; t[43] = 3; no(t, ClientHelloPayload::read) }
        fn client_ext_len_5() unwind 6 { let mut t = CH; t[43] = 5; no(t, ClientHelloPayload::read) }
        fn client_ext_len_255() unwind 6 { let mut t = CH; t[43] = 255; no(t, ClientHelloPayload::read) }
        fn client_ext_item_1() unwind 6 { let mut t = CH; t[47] = 1; no(t, ClientHelloPayload::read) }
        fn client_ext_item_255() unwind 6 { let mut t = CH; t[47] = 255; no(t, ClientHelloPayload::read) }
        fn client_suites_odd() unwind 6 {
            const T: [i16; 47] = rnd([S, S, 1, S, 0, 1, S, 1, S, 0, 4, 0x12, 0x34, 0, 0], 2);
            none::<ClientHelloPayload, 47>(T);
        }
        fn server_extra() unwind 6 {
            let b = fill([0, S, S, S, 0, 0, S]);
            let got = ManuallyDrop::new(ServerHelloPayload::read(&mut Reader::init(&b[..7])));
            assert!(got.is_none());
        }
        fn server_ext_missing() unwind 6 { none::<ServerHelloPayload, 4>([0, S, S, S]) }
        fn server_ext_len_0() unwind 6 { let mut t = SH; t[7] = 0; no(t, ServerHelloPayload::read) }
        fn server_ext_len_4() unwind 6 { let mut t = SH; t[7] = 4; no(t, ServerHelloPayload::read) }
        fn server_ext_len_6() unwind 6 { let mut t = SH; t[7] = 6; no(t, ServerHelloPayload::read) }
        fn server_ext_len_8() unwind 6 { let mut t = SH; t[7] = 8; no(t, ServerHelloPayload::read) }
        fn server_ext_len_255() unwind 6 { let mut t = SH; t[7] = 255; no(t, ServerHelloPayload::read) }
        fn server_ext_item_0() unwind 6 { let mut t = SH; t[11] = 0; no(t, ServerHelloPayload::read) }
        fn server_ext_item_2() unwind 6 { let mut t = SH; t[11] = 2; no(t, ServerHelloPayload::read) }
        fn server_ext_item_4() unwind 6 { let mut t = SH; t[11] = 4; no(t, ServerHelloPayload::read) }
        fn server_ext_item_255() unwind 6 { let mut t = SH; t[11] = 255; no(t, ServerHelloPayload::read) }
        fn retry_compression() unwind 6 { bad::<HelloRetryRequest, 14>(HRR, 5) }
        fn retry_ext_len() unwind 6 { bad::<HelloRetryRequest, 14>(HRR, 7) }
    }
}
