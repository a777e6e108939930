//! The message header, and which body goes with which type.
use super::*;
use tls_core::msgs::message::MessagePayload;

/// The message of type `typ` with the body `t`, read for version `vers`.
#[inline(always)]
fn msg<const N: usize>(t: [i16; N], vers: ProtocolVersion, check: impl FnOnce(HandshakeType, &HandshakePayload, &[u8; 64])) {
    let b = fill(t);
    let mut r = Reader::init(&b[..N]);
    let got = ManuallyDrop::new(HandshakeMessagePayload::read_version(&mut r, vers));
    assert!(got.is_some());
    assert!(r.left() == 0);
    if let Some(x) = &*got {
        check(x.typ, &x.payload, &b);
    }
}
#[inline(always)]
fn no_msg<const N: usize>(t: [i16; N], vers: ProtocolVersion) {
    let b = fill(t);
    let mut r = Reader::init(&b[..N]);
    let got = ManuallyDrop::new(HandshakeMessagePayload::read_version(&mut r, vers));
    assert!(got.is_none());
}
const V2: ProtocolVersion = ProtocolVersion::TLSv1_2;
const V3: ProtocolVersion = ProtocolVersion::TLSv1_3;
use HandshakePayload as P;

pub mod read {
    use super::*;
    harnesses_m! {
        fn hello_request() unwind 6 { msg([0, 0, 0, 0], V2, |t, p, _| assert!(t.get_u8() == 0 && matches!(p, P::HelloRequest))) }
        fn hello_request_body() unwind 6 {
            msg([0, 0, 0, 1, S], V2, |t, p, b| {
                let P::Unknown(x) = p else { panic!() };
                assert!(t.get_u8() == 0);
                eqs(&x.0, b, 4, 1);
            })
        }
        fn done() unwind 6 { msg([14, 0, 0, 0], V2, |t, p, _| assert!(t.get_u8() == 14 && matches!(p, P::ServerHelloDone))) }
        fn end_of_early() unwind 6 { msg([5, 0, 0, 0], V2, |t, p, _| assert!(t.get_u8() == 5 && matches!(p, P::EndOfEarlyData))) }
        fn client_kx() unwind 6 {
            msg([16, 0, 0, 3, S, S, S], V2, |t, p, b| {
                let P::ClientKeyExchange(x) = p else { panic!() };
                assert!(t.get_u8() == 16);
                eqs(&x.0, b, 4, 3);
            })
        }
        fn server_kx() unwind 6 {
            msg([12, 0, 0, 3, S, S, S], V2, |t, p, b| {
                let P::ServerKeyExchange(ServerKeyExchangePayload::Unknown(x)) = p else { panic!() };
                assert!(t.get_u8() == 12);
                eqs(&x.0, b, 4, 3);
            })
        }
        fn finished() unwind 6 {
            msg([20, 0, 0, 12, S, S, S, S, S, S, S, S, S, S, S, S], V2, |t, p, b| {
                let P::Finished(x) = p else { panic!() };
                assert!(t.get_u8() == 20);
                eqs(&x.0, b, 4, 12);
            })
        }
        fn unknown() unwind 6 {
            msg([3, 0, 0, 2, S, S], V2, |t, p, b| {
                let P::Unknown(x) = p else { panic!() };
                assert!(t.get_u8() == 3);
                eqs(&x.0, b, 4, 2);
            })
        }
        fn unknown_other() unwind 6 {
            msg([99, 0, 0, 2, S, S], V3, |t, p, b| {
                let P::Unknown(x) = p else { panic!() };
                assert!(t.get_u8() == 99);
                eqs(&x.0, b, 4, 2);
            })
        }
        fn verify() unwind 6 {
            msg([15, 0, 0, 6, S, S, 0, 2, S, S], V2, |t, p, b| {
                let P::CertificateVerify(x) = p else { panic!() };
                assert!(t.get_u8() == 15 && x.scheme.get_u16() == w(b, 4));
                eqs(&x.sig.0, b, 8, 2);
            })
        }
        fn certs() unwind 6 {
            msg([11, 0, 0, 8, 0, 0, 5, 0, 0, 2, S, S], V2, |t, p, b| {
                let P::Certificate(x) = p else { panic!() };
                assert!(t.get_u8() == 11 && x.len() == 1);
                eqs(&x[0].0, b, 10, 2);
            })
        }
        fn certs13() unwind 6 {
            msg([11, 0, 0, 11, 0, 0, 0, 7, 0, 0, 2, S, S, 0, 0], V3, |t, p, b| {
                let P::CertificateTLS13(x) = p else { panic!() };
                assert!(t.get_u8() == 11 && x.context.0.is_empty() && x.entries.len() == 1);
                eqs(&x.entries[0].cert.0, b, 11, 2);
            })
        }
        fn request() unwind 6 {
            msg([13, 0, 0, 8, 1, S, 0, 2, S, S, 0, 0], V2, |t, p, b| {
                let P::CertificateRequest(x) = p else { panic!() };
                assert!(t.get_u8() == 13 && x.certtypes.len() == 1 && x.certtypes[0].get_u8() == b[5]);
                assert!(x.sigschemes.len() == 1 && x.sigschemes[0].get_u16() == w(b, 8) && x.canames.is_empty());
            })
        }
        fn request13() unwind 6 {
            msg([13, 0, 0, 4, 1, S, 0, 0], V3, |t, p, b| {
                let P::CertificateRequestTLS13(x) = p else { panic!() };
                assert!(t.get_u8() == 13 && x.extensions.is_empty());
                eqs(&x.context.0, b, 5, 1);
            })
        }
        fn ticket() unwind 6 {
            msg([4, 0, 0, 8, S, S, S, S, 0, 2, S, S], V2, |t, p, b| {
                let P::NewSessionTicket(x) = p else { panic!() };
                assert!(t.get_u8() == 4);
                eqs(&x.ticket.0, b, 10, 2);
            })
        }
        fn ticket13() unwind 6 {
            msg([4, 0, 0, 14, S, S, S, S, S, S, S, S, 0, 0, 1, S, 0, 0], V3, |t, p, b| {
                let P::NewSessionTicketTLS13(x) = p else { panic!() };
                assert!(t.get_u8() == 4);
                eqs(&x.ticket.0, b, 15, 1);
            })
        }
        fn encrypted_extensions() unwind 6 {
            msg([8, 0, 0, 6, 0, 4, 0, 0x17, 0, 0], V3, |t, p, _| {
                let P::EncryptedExtensions(x) = p else { panic!() };
                assert!(t.get_u8() == 8 && x.len() == 1 && matches!(x[0], ServerExtension::ExtendedMasterSecretAck));
            })
        }
        fn key_update() unwind 6 {
            msg([24, 0, 0, 1, S], V3, |t, p, b| {
                let P::KeyUpdate(x) = p else { panic!() };
                assert!(t.get_u8() == 24 && x.get_u8() == b[4]);
            })
        }
        fn status() unwind 6 {
            msg([22, 0, 0, 6, 1, 0, 0, 2, S, S], V2, |t, p, b| {
                let P::CertificateStatus(x) = p else { panic!() };
                assert!(t.get_u8() == 22);
                eqs(&x.ocsp_response.0, b, 8, 2);
            })
        }
    }
}
pub mod wrong {
    use super::*;
    /// Any declared length of which only three bytes are there.
    #[inline(always)]
    fn short(typ: u8) {
        let mut b: [u8; 7] = any();
        b[0] = typ;
        assume(b[1] != 0 || b[2] != 0 || b[3] > 3);
        let mut r = Reader::init(&b);
        let got = ManuallyDrop::new(HandshakeMessagePayload::read_version(&mut r, V2));
        assert!(got.is_none());
    }
    harnesses! {
        // not legal on the wire
        fn retry_type() unwind 6 { no_msg([6, 0, 0, 2, S, S], V2) }
        fn retry_type13() unwind 6 { no_msg([6, 0, 0, 0], V3) }
        fn hash_type() unwind 6 { no_msg([254, 0, 0, 2, S, S], V2) }
        // no body allowed
        fn done_body() unwind 6 { no_msg([14, 0, 0, 1, S], V2) }
        fn early_body() unwind 6 { no_msg([5, 0, 0, 1, S], V3) }
        // too much in the body
        fn verify_extra() unwind 6 { no_msg([15, 0, 0, 7, S, S, 0, 2, S, S, S], V2) }
        fn certs_extra() unwind 6 { no_msg([11, 0, 0, 9, 0, 0, 5, 0, 0, 2, S, S, S], V2) }
        fn certs13_extra() unwind 6 { no_msg([11, 0, 0, 5, 0, 0, 0, 0, S], V3) }
        fn request_extra() unwind 6 { no_msg([13, 0, 0, 9, 1, S, 0, 2, S, S, 0, 0, S], V2) }
        fn request13_extra() unwind 6 { no_msg([13, 0, 0, 4, 0, 0, 0, S], V3) }
        fn ticket_extra() unwind 6 { no_msg([4, 0, 0, 8, S, S, S, S, 0, 1, S, S], V2) }
        fn ticket13_extra() unwind 6 { no_msg([4, 0, 0, 14, S, S, S, S, S, S, S, S, 0, 0, 0, 0, 0, S], V3) }
        fn extensions_extra() unwind 6 { no_msg([8, 0, 0, 3, 0, 0, S], V3) }
        fn key_update_extra() unwind 6 { no_msg([24, 0, 0, 2, S, S], V3) }
        fn status_extra() unwind 6 { no_msg([22, 0, 0, 6, 1, 0, 0, 1, S, S], V2) }
        // not enough
        fn key_update_empty() unwind 6 { no_msg([24, 0, 0, 0], V3) }
        fn header_short() unwind 6 {
            no_msg([S, S, S], V2);
            no_msg([S], V2);
        }
        fn body_short_20() unwind 6 { short(20) }
        fn body_short_16() unwind 6 { short(16) }
        fn body_short_11() unwind 6 { short(11) }
        fn body_short_15() unwind 6 { short(15) }
    }
}
/// Headers of messages built here.
pub mod write {
    use super::*;
    use tls_core::msgs::codec::Codec;
    #[inline(always)]
    fn out<const N: usize>(typ: HandshakeType, payload: HandshakePayload, want: [u8; N]) {
        enc(HandshakeMessagePayload { typ, payload }, want)
    }
    harnesses_m! {
        fn empty() unwind 6 {
            out(HandshakeType::HelloRequest, P::HelloRequest, [0, 0, 0, 0]);
            out(HandshakeType::ServerHelloDone, P::ServerHelloDone, [14, 0, 0, 0]);
            out(HandshakeType::EndOfEarlyData, P::EndOfEarlyData, [5, 0, 0, 0]);
        }
        fn finished() unwind 6 {
            let [a, b]: [u8; 2] = any();
            out(HandshakeType::Finished, P::Finished(Payload(v2(a, b))), [20, 0, 0, 2, a, b]);
        }
        fn client_kx() unwind 6 {
            let [a, b]: [u8; 2] = any();
            out(HandshakeType::ClientKeyExchange, P::ClientKeyExchange(Payload(v2(a, b))), [16, 0, 0, 2, a, b]);
        }
        fn verify() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            out(HandshakeType::CertificateVerify, P::CertificateVerify(DigitallySignedStruct::new(SignatureScheme::from(w(&[a, b], 0)), v2(c, d))), [15, 0, 0, 6, a, b, 0, 2, c, d]);
        }
        fn certs() unwind 6 {
            let [a, b]: [u8; 2] = any();
            out(HandshakeType::Certificate, P::Certificate(v1(tls_core::key::Certificate(v2(a, b)))), [11, 0, 0, 8, 0, 0, 5, 0, 0, 2, a, b]);
        }
        fn key_update() unwind 6 {
            enc(HandshakeMessagePayload::build_key_update_notify(), [24, 0, 0, 1, 0]);
        }
        fn handshake_hash() unwind 6 {
            let a: [u8; 3] = any();
            enc(HandshakeMessagePayload::build_handshake_hash(&a), [254, 0, 0, 3, a[0], a[1], a[2]]);
        }
        fn raw() unwind 6 {
            let [t, a, b]: [u8; 3] = any();
            assume(t != 6);
            out(HandshakeType::from(t), P::Unknown(Payload(v2(a, b))), [t, 0, 0, 2, a, b]);
        }
        fn retry() unwind 6 {
            // written as a server hello
            let [a, b]: [u8; 2] = any();
            out(HandshakeType::HelloRetryRequest, P::Unknown(Payload(v2(a, b))), [2, 0, 0, 2, a, b]);
        }
    }
}
/// Content types.
pub mod top {
    use super::*;
    #[inline(always)]
    pub fn new<const N: usize>(ct: u8, t: [i16; N]) -> (ManuallyDrop<Result<MessagePayload, tls_core::Error>>, [u8; 64]) {
        let b = fill(t);
        (ManuallyDrop::new(MessagePayload::new(ContentType::from(ct), V2, Payload::new(&b[..N]))), b)
    }
    harnesses_m! {
        fn data() unwind 6 {
            let (m, b) = new(23, [S, S, S]);
            let Ok(MessagePayload::ApplicationData(p)) = &*m else { panic!() };
            eqs(&p.0, &b, 0, 3);
        }
        fn alert() unwind 6 {
            let (m, b) = new(21, [2, S]);
            let Ok(MessagePayload::Alert(p)) = &*m else { panic!() };
            assert!(p.level.get_u8() == b[0] && p.description.get_u8() == b[1]);
        }
        fn alert_extra() unwind 6 { assert!(new(21, [2, 40, S]).0.is_err()) }
        fn alert_short() unwind 6 { assert!(new(21, [S]).0.is_err()) }
        fn ccs() unwind 6 { assert!(matches!(*new(20, [1]).0, Ok(MessagePayload::ChangeCipherSpec(_)))) }
        fn ccs_extra() unwind 6 { assert!(new(20, [1, S]).0.is_err()) }
        fn handshake() unwind 6 {
            let (m, b) = new(22, [20, 0, 0, 2, S, S]);
            let Ok(MessagePayload::Handshake(h)) = &*m else { panic!() };
            let P::Finished(p) = &h.payload else { panic!() };
            eqs(&p.0, &b, 4, 2);
        }
        fn handshake_short() unwind 6 { assert!(new(22, [20, 0, 0, 3, S, S]).0.is_err()) }
        fn other_0() unwind 6 { assert!(new(0, [1, 0]).0.is_err()) }
        fn other_19() unwind 6 { assert!(new(19, [1, 0]).0.is_err()) }
        fn other_24() unwind 6 { assert!(new(24, [1, 0]).0.is_err()) }
        fn other_25() unwind 6 { assert!(new(25, [1, 0]).0.is_err()) }
        fn other_255() unwind 6 { assert!(new(255, [1, 0]).0.is_err()) }
    }
}
