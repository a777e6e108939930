//! Extensions of the server hello, hello retry request, certificates, certificate requests and tickets.
use super::*;

fn raw<T: Codec, const N: usize>(t: [i16; N], take: impl FnOnce(&T) -> Option<&UnknownExtension>) {
    good(t, |x: &T, b| {
        let u = take(x).unwrap();
        assert!(u.typ.get_u16() == w(b, 0));
        eqs(&u.payload.0, b, 4, N - 4);
    })
}
fn s_raw<const N: usize>(t: [i16; N]) {
    raw(t, |x| if let ServerExtension::Unknown(u) = x { Some(u) } else { None })
}
fn h_raw<const N: usize>(t: [i16; N]) {
    raw(t, |x| if let HelloRetryExtension::Unknown(u) = x { Some(u) } else { None })
}
fn c_raw<const N: usize>(t: [i16; N]) {
    raw(t, |x| if let CertificateExtension::Unknown(u) = x { Some(u) } else { None })
}
fn r_raw<const N: usize>(t: [i16; N]) {
    raw(t, |x| if let CertReqExtension::Unknown(u) = x { Some(u) } else { None })
}
fn t_raw<const N: usize>(t: [i16; N]) {
    raw(t, |x| if let NewSessionTicketExtension::Unknown(u) = x { Some(u) } else { None })
}
pub mod read {
    use super::*;
    use ServerExtension as E;
    harnesses_m! {
        fn point_formats() unwind 6 {
            good([0, 11, 0, 3, 2, S, S], |x: &E, b| {
                let E::ECPointFormats(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u8() == b[5] && l[1].get_u8() == b[6]);
                assert!(x.get_type().get_u16() == 11);
            })
        }
        fn flags() unwind 6 {
            good([0, 0, 0, 0], |x: &E, _| assert!(matches!(x, E::ServerNameAck)));
            good([0, 0x23, 0, 0], |x: &E, _| assert!(matches!(x, E::SessionTicketAck)));
            good([0, 5, 0, 0], |x: &E, _| assert!(matches!(x, E::CertificateStatusAck)));
            good([0, 0x17, 0, 0], |x: &E, _| assert!(matches!(x, E::ExtendedMasterSecretAck)));
            good([0, 0x2a, 0, 0], |x: &E, _| assert!(matches!(x, E::EarlyData)));
        }
        fn flag_types() unwind 6 {
            assert!(E::ServerNameAck.get_type().get_u16() == 0);
            assert!(E::SessionTicketAck.get_type().get_u16() == 0x23);
            assert!(E::CertificateStatusAck.get_type().get_u16() == 5);
            assert!(E::ExtendedMasterSecretAck.get_type().get_u16() == 0x17);
            assert!(E::EarlyData.get_type().get_u16() == 0x2a);
        }
        fn renegotiation() unwind 6 {
            good([0xff, 1, 0, 3, 2, S, S], |x: &E, b| {
                let E::RenegotiationInfo(p) = x else { panic!() };
                eqs(&p.0, b, 5, 2);
                assert!(x.get_type().get_u16() == 0xff01);
            })
        }
        fn alpn() unwind 6 {
            good([0, 16, 0, 5, 0, 3, 2, S, S], |x: &E, b| {
                let E::Protocols(l) = x else { panic!() };
                assert!(l.len() == 1);
                eqs(&l[0].0, b, 7, 2);
                assert!(x.get_type().get_u16() == 16);
            })
        }
        fn key_share() unwind 6 {
            good([0, 0x33, 0, 6, S, S, 0, 2, S, S], |x: &E, b| {
                let E::KeyShare(k) = x else { panic!() };
                assert!(k.group.get_u16() == w(b, 4));
                eqs(&k.payload.0, b, 8, 2);
                assert!(x.get_type().get_u16() == 0x33);
            })
        }
        fn psk() unwind 6 {
            good([0, 0x29, 0, 2, S, S], |x: &E, b| {
                let E::PresharedKey(k) = x else { panic!() };
                assert!(*k == w(b, 4) && x.get_type().get_u16() == 0x29);
            })
        }
        fn scts() unwind 6 {
            good([0, 0x12, 0, 6, 0, 4, 0, 2, S, S], |x: &E, b| {
                let E::SignedCertificateTimestamp(l) = x else { panic!() };
                assert!(l.len() == 1);
                eqs(&l[0].0, b, 8, 2);
                assert!(x.get_type().get_u16() == 0x12);
            })
        }
        fn version() unwind 6 {
            good([0, 0x2b, 0, 2, S, S], |x: &E, b| {
                let E::SupportedVersions(v) = x else { panic!() };
                assert!(v.get_u16() == w(b, 4) && x.get_type().get_u16() == 0x2b);
            })
        }
        fn quic() unwind 6 {
            good([0, 0x39, 0, 2, S, S], |x: &E, b| {
                let E::TransportParameters(p) = x else { panic!() };
                eqs(p, b, 4, 2);
                assert!(x.get_type().get_u16() == 0x39);
            })
        }
        fn quic_draft() unwind 6 {
            good([0xff, 0xa5, 0, 2, S, S], |x: &E, b| {
                let E::TransportParametersDraft(p) = x else { panic!() };
                eqs(p, b, 4, 2);
                assert!(x.get_type().get_u16() == 0xffa5);
            })
        }
        fn unknown() unwind 6 { s_raw([0x12, 0x34, 0, 2, S, S]) }
        fn cookie_is_unknown() unwind 6 { s_raw([0, 0x2c, 0, 2, S, S]) }

        fn hrr_share() unwind 6 {
            good([0, 0x33, 0, 2, S, S], |x: &HelloRetryExtension, b| {
                let HelloRetryExtension::KeyShare(g) = x else { panic!() };
                assert!(g.get_u16() == w(b, 4) && x.get_type().get_u16() == 0x33);
            })
        }
        fn hrr_cookie() unwind 6 {
            good([0, 0x2c, 0, 4, 0, 2, S, S], |x: &HelloRetryExtension, b| {
                let HelloRetryExtension::Cookie(p) = x else { panic!() };
                eqs(&p.0, b, 6, 2);
                assert!(x.get_type().get_u16() == 0x2c);
            })
        }
        fn hrr_version() unwind 6 {
            good([0, 0x2b, 0, 2, S, S], |x: &HelloRetryExtension, b| {
                let HelloRetryExtension::SupportedVersions(v) = x else { panic!() };
                assert!(v.get_u16() == w(b, 4) && x.get_type().get_u16() == 0x2b);
            })
        }
        fn hrr_unknown() unwind 6 { h_raw([0, 16, 0, 2, S, S]) }

        fn cert_ocsp() unwind 6 {
            good([0, 5, 0, 6, 1, 0, 0, 2, S, S], |x: &CertificateExtension, b| {
                let CertificateExtension::CertificateStatus(s) = x else { panic!() };
                eqs(&s.ocsp_response.0, b, 8, 2);
                assert!(x.get_type().get_u16() == 5);
                eqs(x.get_cert_status().unwrap(), b, 8, 2);
                assert!(x.get_sct_list().is_none());
            })
        }
        fn cert_scts() unwind 6 {
            good([0, 0x12, 0, 6, 0, 4, 0, 2, S, S], |x: &CertificateExtension, b| {
                let CertificateExtension::SignedCertificateTimestamp(l) = x else { panic!() };
                assert!(l.len() == 1);
                eqs(&l[0].0, b, 8, 2);
                assert!(x.get_type().get_u16() == 0x12);
                assert!(x.get_sct_list().is_some() && x.get_cert_status().is_none());
            })
        }
        fn cert_unknown() unwind 6 { c_raw([0, 16, 0, 2, S, S]) }

        fn req_sigalgs() unwind 6 {
            good([0, 13, 0, 6, 0, 4, S, S, S, S], |x: &CertReqExtension, b| {
                let CertReqExtension::SignatureAlgorithms(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u16() == w(b, 6) && l[1].get_u16() == w(b, 8));
                assert!(x.get_type().get_u16() == 13);
            })
        }
        fn req_names() unwind 6 {
            good([0, 0x2f, 0, 6, 0, 4, 0, 2, S, S], |x: &CertReqExtension, b| {
                let CertReqExtension::AuthorityNames(l) = x else { panic!() };
                assert!(l.len() == 1);
                eqs(&l[0].0, b, 8, 2);
                assert!(x.get_type().get_u16() == 0x2f);
            })
        }
        fn req_unknown() unwind 6 { r_raw([0, 16, 0, 2, S, S]) }

        fn ticket_early() unwind 6 {
            good([0, 0x2a, 0, 4, S, S, S, S], |x: &NewSessionTicketExtension, b| {
                let NewSessionTicketExtension::EarlyData(n) = x else { panic!() };
                assert!(*n == u32::from_be_bytes([b[4], b[5], b[6], b[7]]) && x.get_type().get_u16() == 0x2a);
            })
        }
        fn ticket_unknown() unwind 6 { t_raw([0, 16, 0, 2, S, S]) }
    }
}
pub mod write {
    use super::*;
    use ServerExtension as E;
    harnesses_m! {
        fn point_formats() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::ECPointFormats(v2(ECPointFormat::from(a), ECPointFormat::from(b))), [0, 11, 0, 3, 2, a, b]);
        }
        fn flags() unwind 6 {
            enc(E::ServerNameAck, [0, 0, 0, 0]);
            enc(E::SessionTicketAck, [0, 0x23, 0, 0]);
            enc(E::CertificateStatusAck, [0, 5, 0, 0]);
            enc(E::ExtendedMasterSecretAck, [0, 0x17, 0, 0]);
            enc(E::EarlyData, [0, 0x2a, 0, 0]);
        }
        fn renegotiation() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::RenegotiationInfo(PayloadU8(v2(a, b))), [0xff, 1, 0, 3, 2, a, b]);
        }
        fn renegotiation_empty() unwind 6 {
            enc(E::make_empty_renegotiation_info(), [0xff, 1, 0, 1, 0]);
        }
        fn alpn() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::Protocols(v1(PayloadU8(v2(a, b)))), [0, 16, 0, 5, 0, 3, 2, a, b]);
        }
        fn key_share() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(KeyShareEntry { group: NamedGroup::from(w(&[a, b], 0)), payload: PayloadU16(v2(c, d)) }, [a, b, 0, 2, c, d]);
        }
        fn psk() unwind 6 {
            let n: u16 = any();
            let [a, b] = n.to_be_bytes();
            enc(E::PresharedKey(n), [0, 0x29, 0, 2, a, b]);
        }
        fn scts() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::SignedCertificateTimestamp(v1(PayloadU16(v2(a, b)))), [0, 0x12, 0, 6, 0, 4, 0, 2, a, b]);
        }
        fn version() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::SupportedVersions(ProtocolVersion::from(w(&[a, b], 0))), [0, 0x2b, 0, 2, a, b]);
        }
        fn quic() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::TransportParameters(v2(a, b)), [0, 0x39, 0, 2, a, b]);
            enc(E::TransportParametersDraft(v2(a, b)), [0xff, 0xa5, 0, 2, a, b]);
        }
        fn hrr() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(HelloRetryExtension::KeyShare(NamedGroup::from(w(&[a, b], 0))), [0, 0x33, 0, 2, a, b]);
            enc(HelloRetryExtension::SupportedVersions(ProtocolVersion::from(w(&[c, d], 0))), [0, 0x2b, 0, 2, c, d]);
        }
        fn hrr_cookie() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(HelloRetryExtension::Cookie(PayloadU16(v2(a, b))), [0, 0x2c, 0, 4, 0, 2, a, b]);
        }
        fn cert_ocsp() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(CertificateExtension::CertificateStatus(CertificateStatus { ocsp_response: PayloadU24(v2(a, b)) }), [0, 5, 0, 6, 1, 0, 0, 2, a, b]);
        }
        fn cert_scts() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(CertificateExtension::SignedCertificateTimestamp(v1(PayloadU16(v2(a, b)))), [0, 0x12, 0, 6, 0, 4, 0, 2, a, b]);
        }
        fn req_sigalgs() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(CertReqExtension::SignatureAlgorithms(v1(SignatureScheme::from(w(&[a, b], 0)))), [0, 13, 0, 4, 0, 2, a, b]);
        }
        fn req_names() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(CertReqExtension::AuthorityNames(v1(PayloadU16(v2(a, b)))), [0, 0x2f, 0, 6, 0, 4, 0, 2, a, b]);
        }
        fn ticket() unwind 6 {
            let n: u32 = any();
            let g = n.to_be_bytes();
            enc(NewSessionTicketExtension::EarlyData(n), [0, 0x2a, 0, 4, g[0], g[1], g[2], g[3]]);
        }
    }
}
pub mod wrong {
    use super::*;
    use ServerExtension as E;
    harnesses! {
        // a length that does not fit
        fn formats_inner() unwind 5 { bad::<E, 7>([0, 11, 0, 3, 2, S, S], 4) }
        fn formats_outer() unwind 5 { bad::<E, 7>([0, 11, 0, 3, 2, S, S], 3) }
        fn renegotiation() unwind 5 { bad::<E, 7>([0xff, 1, 0, 3, 2, S, S], 4) }
        fn alpn() unwind 5 { bad::<E, 9>([0, 16, 0, 5, 0, 3, 2, S, S], 5) }
        fn key_share() unwind 5 { bad::<E, 10>([0, 0x33, 0, 6, S, S, 0, 2, S, S], 7) }
        fn key_share_outer() unwind 5 { bad::<E, 10>([0, 0x33, 0, 6, S, S, 0, 2, S, S], 3) }
        fn psk() unwind 5 { bad::<E, 6>([0, 0x29, 0, 2, S, S], 3) }
        fn scts() unwind 5 { bad::<E, 10>([0, 0x12, 0, 6, 0, 4, 0, 2, S, S], 5) }
        fn version() unwind 5 { bad::<E, 6>([0, 0x2b, 0, 2, S, S], 3) }
        // acknowledgements have no body
        fn sni_body() unwind 5 { none::<E, 5>([0, 0, 0, 1, S]) }
        fn ticket_body() unwind 5 { none::<E, 5>([0, 0x23, 0, 1, S]) }
        fn status_body() unwind 5 { none::<E, 5>([0, 5, 0, 1, S]) }
        fn ems_body() unwind 5 { none::<E, 5>([0, 0x17, 0, 1, S]) }
        fn early_body() unwind 5 { none::<E, 5>([0, 0x2a, 0, 1, S]) }

        fn hrr_share() unwind 5 { bad::<HelloRetryExtension, 6>([0, 0x33, 0, 2, S, S], 3) }
        fn hrr_cookie() unwind 5 { bad::<HelloRetryExtension, 8>([0, 0x2c, 0, 4, 0, 2, S, S], 5) }
        fn hrr_version() unwind 5 { bad::<HelloRetryExtension, 6>([0, 0x2b, 0, 2, S, S], 3) }
        fn cert_type() unwind 5 { bad::<CertificateExtension, 10>([0, 5, 0, 6, 1, 0, 0, 2, S, S], 4) }
        fn cert_len() unwind 5 { bad::<CertificateExtension, 10>([0, 5, 0, 6, 1, 0, 0, 2, S, S], 7) }
        fn cert_scts() unwind 5 { bad::<CertificateExtension, 10>([0, 0x12, 0, 6, 0, 4, 0, 2, S, S], 5) }
        fn req_sigalgs() unwind 5 { bad::<CertReqExtension, 8>([0, 13, 0, 4, 0, 2, S, S], 5) }
        fn req_sigalgs_none() unwind 5 { none::<CertReqExtension, 6>([0, 13, 0, 2, 0, 0]) }
        fn req_names() unwind 5 { bad::<CertReqExtension, 10>([0, 0x2f, 0, 6, 0, 4, 0, 2, S, S], 5) }
        fn ticket() unwind 5 { bad::<NewSessionTicketExtension, 8>([0, 0x2a, 0, 4, S, S, S, S], 3) }
    }
}
