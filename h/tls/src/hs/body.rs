//! Message bodies other than hellos.
use super::*;
use tls_core::key::Certificate;
use tls_core::msgs::{alert::AlertMessagePayload, ccs::ChangeCipherSpecPayload};

pub mod read {
    use super::*;
    harnesses_m! {
        fn certs() unwind 6 {
            good([0, 0, 9, 0, 0, 2, S, S, 0, 0, 1, S], |x: &CertificatePayload, b| {
                assert!(x.len() == 2);
                eqs(&x[0].0, b, 6, 2);
                eqs(&x[1].0, b, 11, 1);
            })
        }
        fn certs_none() unwind 6 { good([0, 0, 0], |x: &CertificatePayload, _| assert!(x.is_empty())) }
        fn certs13() unwind 6 {
            good([1, S, 0, 0, 7, 0, 0, 2, S, S, 0, 0], |x: &CertificatePayloadTLS13, b| {
                eqs(&x.context.0, b, 1, 1);
                assert!(x.entries.len() == 1 && x.entries[0].exts.is_empty());
                eqs(&x.entries[0].cert.0, b, 8, 2);
            })
        }
        fn entry() unwind 6 {
            good([0, 0, 1, S, 0, 6, 0x12, 0x34, 0, 2, S, S], |x: &CertificateEntry, b| {
                eqs(&x.cert.0, b, 3, 1);
                assert!(x.exts.len() == 1);
                let CertificateExtension::Unknown(u) = &x.exts[0] else { panic!() };
                assert!(u.typ.get_u16() == 0x1234);
                eqs(&u.payload.0, b, 10, 2);
            })
        }
        fn request() unwind 6 {
            good([2, S, S, 0, 4, S, S, S, S, 0, 4, 0, 2, S, S], |x: &CertificateRequestPayload, b| {
                assert!(x.certtypes.len() == 2 && x.certtypes[0].get_u8() == b[1] && x.certtypes[1].get_u8() == b[2]);
                assert!(x.sigschemes.len() == 2 && x.sigschemes[0].get_u16() == w(b, 5) && x.sigschemes[1].get_u16() == w(b, 7));
                assert!(x.canames.len() == 1);
                eqs(&x.canames[0].0, b, 13, 2);
            })
        }
        fn request13() unwind 6 {
            good([1, S, 0, 6, 0x12, 0x34, 0, 2, S, S], |x: &CertificateRequestPayloadTLS13, b| {
                eqs(&x.context.0, b, 1, 1);
                assert!(x.extensions.len() == 1);
                let CertReqExtension::Unknown(u) = &x.extensions[0] else { panic!() };
                assert!(u.typ.get_u16() == 0x1234);
                eqs(&u.payload.0, b, 8, 2);
            })
        }
        fn verify() unwind 6 {
            good([S, S, 0, 2, S, S], |x: &DigitallySignedStruct, b| {
                assert!(x.scheme.get_u16() == w(b, 0));
                eqs(&x.sig.0, b, 4, 2);
            })
        }
        fn ticket() unwind 6 {
            good([S, S, S, S, 0, 2, S, S], |x: &NewSessionTicketPayload, b| {
                assert!(x.lifetime_hint == u32::from_be_bytes([b[0], b[1], b[2], b[3]]));
                eqs(&x.ticket.0, b, 6, 2);
            })
        }
        fn ticket13() unwind 6 {
            good([S, S, S, S, S, S, S, S, 2, S, S, 0, 2, S, S, 0, 0], |x: &NewSessionTicketPayloadTLS13, b| {
                assert!(x.lifetime == u32::from_be_bytes([b[0], b[1], b[2], b[3]]) && x.age_add == u32::from_be_bytes([b[4], b[5], b[6], b[7]]));
                eqs(&x.nonce.0, b, 9, 2);
                eqs(&x.ticket.0, b, 13, 2);
                assert!(x.exts.is_empty());
            })
        }
        fn status() unwind 6 {
            good([1, 0, 0, 2, S, S], |x: &CertificateStatus, b| eqs(&x.ocsp_response.0, b, 4, 2))
        }
        fn alert() unwind 6 {
            good([S, S], |x: &AlertMessagePayload, b| assert!(x.level.get_u8() == b[0] && x.description.get_u8() == b[1]))
        }
        fn ccs() unwind 6 { good([1], |_: &ChangeCipherSpecPayload, _| ()) }
        fn random() unwind 6 {
            good([S; 32], |x: &Random, b| eqs(&x.0, b, 0, 32))
        }
        fn key_update() unwind 6 { good([S], |x: &KeyUpdateRequest, b| assert!(x.get_u8() == b[0])) }
        fn server_kx() unwind 6 {
            good([S, S, S], |x: &ServerKeyExchangePayload, b| {
                let ServerKeyExchangePayload::Unknown(p) = x else { panic!() };
                eqs(&p.0, b, 0, 3);
            })
        }
    }
}
pub mod write {
    use super::*;
    harnesses_m! {
        fn certs() unwind 6 {
            let [a, b, c]: [u8; 3] = any();
            enc(v2(Certificate(v2(a, b)), Certificate(v1(c))), [0, 0, 9, 0, 0, 2, a, b, 0, 0, 1, c]);
        }
        fn certs13() unwind 6 {
            let [a, b, c]: [u8; 3] = any();
            enc(CertificatePayloadTLS13 { context: PayloadU8(v1(a)), entries: one(CertificateEntry { cert: Certificate(v2(b, c)), exts: Vec::with_capacity(1) }) },
                [1, a, 0, 0, 7, 0, 0, 2, b, c, 0, 0]);
        }
        fn request() unwind 6 {
            let [a, b, c, d, e]: [u8; 5] = any();
            enc(CertificateRequestPayload { certtypes: v1(ClientCertificateType::from(a)), sigschemes: v1(SignatureScheme::from(w(&[b, c], 0))), canames: v1(PayloadU16(v2(d, e))) },
                [1, a, 0, 2, b, c, 0, 4, 0, 2, d, e]);
        }
        fn verify() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(DigitallySignedStruct::new(SignatureScheme::from(w(&[a, b], 0)), v2(c, d)), [a, b, 0, 2, c, d]);
        }
        fn ticket() unwind 6 {
            let [a, b]: [u8; 2] = any();
            let n: u32 = any();
            let g = n.to_be_bytes();
            enc(NewSessionTicketPayload::new(n, v2(a, b)), [g[0], g[1], g[2], g[3], 0, 2, a, b]);
        }
        fn ticket13() unwind 6 {
            let [a, b]: [u8; 2] = any();
            let (n, m): (u32, u32) = (any(), any());
            let (g, h) = (n.to_be_bytes(), m.to_be_bytes());
            enc(NewSessionTicketPayloadTLS13 { lifetime: n, age_add: m, nonce: PayloadU8(v1(a)), ticket: PayloadU16(v1(b)), exts: Vec::with_capacity(1) },
                [g[0], g[1], g[2], g[3], h[0], h[1], h[2], h[3], 1, a, 0, 1, b, 0, 0]);
        }
        fn status() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(CertificateStatus::new(v2(a, b)), [1, 0, 0, 2, a, b]);
        }
        fn alert() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(AlertMessagePayload { level: AlertLevel::from(a), description: AlertDescription::from(b) }, [a, b]);
        }
        fn ccs() unwind 6 { enc(ChangeCipherSpecPayload, [1]) }
        fn random() unwind 6 {
            let a: [u8; 32] = any();
            enc(Random(a), a);
            let mut o = [0u8; 32];
            Random(a).write_slice(&mut o);
            eqs(&o, &a, 0, 32);
        }
        fn key_update() unwind 6 {
            let a: u8 = any();
            enc(KeyUpdateRequest::from(a), [a]);
        }
    }
}
pub mod wrong {
    use super::*;
    harnesses! {
        fn certs_outer() unwind 5 { bad::<CertificatePayload, 9>([0, 0, 6, 0, 0, 3, S, S, S], 2) }
        fn certs_item() unwind 5 { bad::<CertificatePayload, 8>([0, 0, 5, 0, 0, 2, 7, 7], 5) }
        fn request_types() unwind 9 { bad::<CertificateRequestPayload, 7>([1, 0, 0, 0, 0, 0, 0], 0) }
        fn request_no_schemes() unwind 5 { none::<CertificateRequestPayload, 6>([1, S, 0, 0, 0, 0]) }
        fn request_names() unwind 5 { bad::<CertificateRequestPayload, 12>([1, S, 0, 2, S, S, 0, 4, 0, 2, S, S], 7) }
        fn verify() unwind 5 { bad::<DigitallySignedStruct, 6>([S, S, 0, 2, S, S], 3) }
        fn verify_high() unwind 5 { bad::<DigitallySignedStruct, 6>([S, S, 0, 2, S, S], 2) }
        fn verify_short() unwind 5 { none::<DigitallySignedStruct, 3>([S, S, S]) }
        fn ticket() unwind 5 { bad::<NewSessionTicketPayload, 8>([S, S, S, S, 0, 2, S, S], 5) }
        fn ticket_short() unwind 5 { none::<NewSessionTicketPayload, 5>([S, S, S, S, S]) }
        fn ticket13_nonce() unwind 5 { bad::<NewSessionTicketPayloadTLS13, 15>([S, S, S, S, S, S, S, S, 1, 9, 0, 1, 9, 0, 0], 8) }
        fn ticket13_exts() unwind 5 { bad::<NewSessionTicketPayloadTLS13, 15>([S, S, S, S, S, S, S, S, 1, S, 0, 1, S, 0, 0], 14) }
        fn status_type() unwind 5 { bad::<CertificateStatus, 6>([1, 0, 0, 2, S, S], 0) }
        fn status_len() unwind 5 { bad::<CertificateStatus, 6>([1, 0, 0, 2, S, S], 3) }
        fn alert_short() unwind 5 {
            none::<AlertMessagePayload, 1>([S]);
            none::<AlertMessagePayload, 0>([]);
        }
        fn ccs_value() unwind 5 { bad::<ChangeCipherSpecPayload, 1>([1], 0) }
        fn ccs_long() unwind 5 {
            none::<ChangeCipherSpecPayload, 2>([1, S]);
            none::<ChangeCipherSpecPayload, 0>([]);
        }
        fn random_short() unwind 5 { none::<Random, 31>([S; 31]) }
    }
}
