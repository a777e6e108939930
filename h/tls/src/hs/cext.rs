//! Extensions of the client hello.
use super::*;
type E = ClientExtension;

/// A raw body: kept as it is.
fn unknown<const N: usize>(t: [i16; N]) {
    good(t, |x: &E, b| {
        let E::Unknown(u) = x else { panic!() };
        assert!(u.typ.get_u16() == w(b, 0));
        eqs(&u.payload.0, b, 4, N - 4);
        assert!(x.get_type().get_u16() == w(b, 0));
    })
}

pub mod read {
    use super::*;
    harnesses_m! {
        fn point_formats() unwind 6 {
            good([0, 11, 0, 3, 2, S, S], |x: &E, b| {
                let E::ECPointFormats(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u8() == b[5] && l[1].get_u8() == b[6]);
                assert!(x.get_type().get_u16() == 11);
            })
        }
        fn groups() unwind 6 {
            good([0, 10, 0, 6, 0, 4, S, S, S, S], |x: &E, b| {
                let E::NamedGroups(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u16() == w(b, 6) && l[1].get_u16() == w(b, 8));
                assert!(x.get_type().get_u16() == 10);
            })
        }
        fn groups_none() unwind 6 {
            good([0, 10, 0, 2, 0, 0], |x: &E, _| {
                let E::NamedGroups(l) = x else { panic!() };
                assert!(l.is_empty());
            })
        }
        fn sigalgs() unwind 6 {
            good([0, 13, 0, 6, 0, 4, S, S, S, S], |x: &E, b| {
                let E::SignatureAlgorithms(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u16() == w(b, 6) && l[1].get_u16() == w(b, 8));
                assert!(x.get_type().get_u16() == 13);
            })
        }
        fn ticket_request() unwind 6 {
            good([0, 0x23, 0, 0], |x: &E, _| {
                assert!(matches!(x, E::SessionTicket(ClientSessionTicket::Request)));
                assert!(x.get_type().get_u16() == 0x23);
            })
        }
        fn ticket_offer() unwind 6 {
            good([0, 0x23, 0, 2, S, S], |x: &E, b| {
                let E::SessionTicket(ClientSessionTicket::Offer(p)) = x else { panic!() };
                eqs(&p.0, b, 4, 2);
            })
        }
        fn alpn() unwind 6 {
            good([0, 16, 0, 7, 0, 5, 2, S, S, 1, S], |x: &E, b| {
                let E::Protocols(l) = x else { panic!() };
                assert!(l.len() == 2);
                eqs(&l[0].0, b, 7, 2);
                eqs(&l[1].0, b, 10, 1);
                assert!(x.get_type().get_u16() == 16);
            })
        }
        fn versions() unwind 6 {
            good([0, 0x2b, 0, 5, 4, S, S, S, S], |x: &E, b| {
                let E::SupportedVersions(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u16() == w(b, 5) && l[1].get_u16() == w(b, 7));
                assert!(x.get_type().get_u16() == 0x2b);
            })
        }
        fn psk_modes() unwind 6 {
            good([0, 0x2d, 0, 3, 2, S, S], |x: &E, b| {
                let E::PresharedKeyModes(l) = x else { panic!() };
                assert!(l.len() == 2 && l[0].get_u8() == b[5] && l[1].get_u8() == b[6]);
                assert!(x.get_type().get_u16() == 0x2d);
            })
        }
        fn psk() unwind 6 {
            good([0, 0x29, 0, 15, 0, 8, 0, 2, S, S, S, S, S, S, 0, 3, 2, S, S], |x: &E, b| {
                let E::PresharedKey(o) = x else { panic!() };
                assert!(o.identities.len() == 1 && o.binders.len() == 1);
                eqs(&o.identities[0].identity.0, b, 8, 2);
                assert!(o.identities[0].obfuscated_ticket_age == u32::from_be_bytes([b[10], b[11], b[12], b[13]]));
                eqs(&o.binders[0].0, b, 17, 2);
                assert!(x.get_type().get_u16() == 0x29);
            })
        }
        fn cookie() unwind 6 {
            good([0, 0x2c, 0, 4, 0, 2, S, S], |x: &E, b| {
                let E::Cookie(p) = x else { panic!() };
                eqs(&p.0, b, 6, 2);
                assert!(x.get_type().get_u16() == 0x2c);
            })
        }
        fn flags() unwind 6 {
            good([0, 0x17, 0, 0], |x: &E, _| assert!(matches!(x, E::ExtendedMasterSecretRequest)));
            good([0, 0x12, 0, 0], |x: &E, _| assert!(matches!(x, E::SignedCertificateTimestampRequest)));
            good([0, 0x2a, 0, 0], |x: &E, _| assert!(matches!(x, E::EarlyData)));
        }
        fn flag_types() unwind 6 {
            assert!(E::ExtendedMasterSecretRequest.get_type().get_u16() == 0x17);
            assert!(E::SignedCertificateTimestampRequest.get_type().get_u16() == 0x12);
            assert!(E::EarlyData.get_type().get_u16() == 0x2a);
        }
        fn status_ocsp() unwind 6 {
            good([0, 5, 0, 9, 1, 0, 3, 0, 1, S, 0, 1, S], |x: &E, b| {
                let E::CertificateStatusRequest(CertificateStatusRequest::OCSP(o)) = x else { panic!() };
                assert!(o.responder_ids.len() == 1);
                eqs(&o.responder_ids[0].0, b, 9, 1);
                eqs(&o.extensions.0, b, 12, 1);
                assert!(x.get_type().get_u16() == 5);
            })
        }
        fn status_unknown() unwind 6 {
            good([0, 5, 0, 3, 2, S, S], |x: &E, b| {
                let E::CertificateStatusRequest(CertificateStatusRequest::Unknown((t, p))) = x else { panic!() };
                assert!(t.get_u8() == 2);
                eqs(&p.0, b, 5, 2);
            })
        }
        fn quic() unwind 6 {
            good([0, 0x39, 0, 2, S, S], |x: &E, b| {
                let E::TransportParameters(p) = x else { panic!() };
                eqs(p, b, 4, 2);
                assert!(x.get_type().get_u16() == 0x39);
            })
        }
        fn quic_draft() unwind 6 {
            good([0xff, 0xa5, 0, 2, S, S], |x: &E, b| {
                let E::TransportParametersDraft(p) = x else { panic!() };
                eqs(p, b, 4, 2);
                assert!(x.get_type().get_u16() == 0xffa5);
            })
        }
        fn unknown_0() unwind 6 { unknown([0x12, 0x34, 0, 0]) }
        fn unknown_3() unwind 6 { unknown([0x12, 0x34, 0, 3, S, S, S]) }
        fn ems_body() unwind 6 { unknown([0, 0x17, 0, 2, S, S]) }
        fn sct_body() unwind 6 { unknown([0, 0x12, 0, 2, S, S]) }
        fn early_body() unwind 6 { unknown([0, 0x2a, 0, 1, S]) }
        fn reneg() unwind 6 { unknown([0xff, 1, 0, 2, S, S]) }
        fn sni_list_0() unwind 6 {
            good([0, 0, 0, 2, 0, 0], |x: &E, _| {
                let E::ServerName(l) = x else { panic!() };
                assert!(l.is_empty() && x.get_type().get_u16() == 0);
            })
        }
        fn sni_other() unwind 6 {
            good([0, 0, 0, 5, 0, 3, 1, S, S], |x: &E, b| {
                let E::ServerName(l) = x else { panic!() };
                assert!(l.len() == 1 && l[0].typ.get_u8() == 1);
                let ServerNamePayload::Unknown(p) = &l[0].payload else { panic!() };
                eqs(&p.0, b, 7, 2);
            })
        }
    }
}
pub mod plain {
    use super::*;
    harnesses! {
        fn key_share() unwind 6 {
            good([0, 0x33, 0, 8, 0, 6, S, S, 0, 2, S, S], |x: &E, b| {
                let E::KeyShare(l) = x else { panic!() };
                assert!(l.len() == 1 && l[0].group.get_u16() == w(b, 6));
                eqs(&l[0].payload.0, b, 10, 2);
                assert!(x.get_type().get_u16() == 0x33);
            })
        }
    }
}
pub mod write {
    use super::*;
    harnesses_m! {
        fn point_formats() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::ECPointFormats(v2(ECPointFormat::from(a), ECPointFormat::from(b))), [0, 11, 0, 3, 2, a, b]);
        }
        fn groups() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(E::NamedGroups(v2(NamedGroup::from(w(&[a, b], 0)), NamedGroup::from(w(&[c, d], 0)))), [0, 10, 0, 6, 0, 4, a, b, c, d]);
        }
        fn sigalgs() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(E::SignatureAlgorithms(v2(SignatureScheme::from(w(&[a, b], 0)), SignatureScheme::from(w(&[c, d], 0)))), [0, 13, 0, 6, 0, 4, a, b, c, d]);
        }
        fn tickets() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::SessionTicket(ClientSessionTicket::Request), [0, 0x23, 0, 0]);
            enc(E::SessionTicket(ClientSessionTicket::Offer(Payload(v2(a, b)))), [0, 0x23, 0, 2, a, b]);
        }
        fn alpn() unwind 6 {
            let [a, b, c]: [u8; 3] = any();
            enc(E::Protocols(v2(PayloadU8(v2(a, b)), PayloadU8(v1(c)))), [0, 16, 0, 7, 0, 5, 2, a, b, 1, c]);
        }
        fn versions() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(E::SupportedVersions(v2(ProtocolVersion::from(w(&[a, b], 0)), ProtocolVersion::from(w(&[c, d], 0)))), [0, 0x2b, 0, 5, 4, a, b, c, d]);
        }
        fn key_share() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(E::KeyShare(v1(KeyShareEntry { group: NamedGroup::from(w(&[a, b], 0)), payload: PayloadU16(v2(c, d)) })), [0, 0x33, 0, 8, 0, 6, a, b, 0, 2, c, d]);
        }
        fn psk_modes() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::PresharedKeyModes(v2(PSKKeyExchangeMode::from(a), PSKKeyExchangeMode::from(b))), [0, 0x2d, 0, 3, 2, a, b]);
        }
        fn psk() unwind 6 {
            let [a, b]: [u8; 2] = any();
            let age: u32 = any();
            let g = age.to_be_bytes();
            enc(PresharedKeyIdentity { identity: PayloadU16(v2(a, b)), obfuscated_ticket_age: age }, [0, 2, a, b, g[0], g[1], g[2], g[3]]);
        }
        fn psk_offer() unwind 6 {
            let [a, b, c]: [u8; 3] = any();
            let o = PresharedKeyOffer { identities: v1(PresharedKeyIdentity { identity: PayloadU16(v1(a)), obfuscated_ticket_age: 0x01020304 }), binders: v1(PayloadU8(v2(b, c))) };
            enc(o, [0, 7, 0, 1, a, 1, 2, 3, 4, 0, 3, 2, b, c]);
        }
        fn cookie() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::Cookie(PayloadU16(v2(a, b))), [0, 0x2c, 0, 4, 0, 2, a, b]);
        }
        fn flags() unwind 6 {
            enc(E::ExtendedMasterSecretRequest, [0, 0x17, 0, 0]);
            enc(E::SignedCertificateTimestampRequest, [0, 0x12, 0, 0]);
            enc(E::EarlyData, [0, 0x2a, 0, 0]);
        }
        fn status() unwind 6 {
            let [a, b]: [u8; 2] = any();
            let o = OCSPCertificateStatusRequest { responder_ids: v1(PayloadU16(v1(a))), extensions: PayloadU16(v1(b)) };
            enc(CertificateStatusRequest::OCSP(o), [1, 0, 3, 0, 1, a, 0, 1, b]);
        }
        fn status_default() unwind 6 {
            enc(CertificateStatusRequest::build_ocsp(), [1, 0, 0, 0, 0]);
        }
        fn status_unknown() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(CertificateStatusRequest::Unknown((CertificateStatusType::from(a), Payload(v1(b)))), [a, b]);
        }
        fn quic() unwind 6 {
            let [a, b]: [u8; 2] = any();
            enc(E::TransportParameters(v2(a, b)), [0, 0x39, 0, 2, a, b]);
            enc(E::TransportParametersDraft(v2(a, b)), [0xff, 0xa5, 0, 2, a, b]);
        }
        fn unknown() unwind 6 {
            let [a, b, c, d]: [u8; 4] = any();
            enc(E::Unknown(UnknownExtension { typ: ExtensionType::Unknown(w(&[a, b], 0)), payload: Payload(v2(c, d)) }), [a, b, 0, 2, c, d]);
        }
        fn sni_other() unwind 6 {
            let [a, b, c]: [u8; 3] = any();
            enc(ServerName { typ: ServerNameType::from(a), payload: ServerNamePayload::Unknown(Payload(v2(b, c))) }, [a, b, c]);
        }
    }
}
/// One length byte is wrong.
pub mod bad {
    use super::*;
    harnesses! {
        fn point_formats() unwind 5 { super::super::bad::<E, 7>([0, 11, 0, 3, 2, S, S], 4) }
        fn point_formats_len() unwind 5 { super::super::bad::<E, 7>([0, 11, 0, 3, 2, S, S], 3) }
        fn point_formats_high() unwind 5 { super::super::bad::<E, 7>([0, 11, 0, 3, 2, S, S], 2) }
        fn groups() unwind 5 { super::super::bad::<E, 10>([0, 10, 0, 6, 0, 4, S, S, S, S], 5) }
        fn groups_high() unwind 5 { super::super::bad::<E, 10>([0, 10, 0, 6, 0, 4, S, S, S, S], 4) }
        fn groups_len() unwind 5 { super::super::bad::<E, 10>([0, 10, 0, 6, 0, 4, S, S, S, S], 3) }
        fn sigalgs() unwind 5 { super::super::bad::<E, 10>([0, 13, 0, 6, 0, 4, S, S, S, S], 5) }
        fn alpn_list() unwind 5 { super::super::bad::<E, 9>([0, 16, 0, 5, 0, 3, 2, S, S], 5) }
        fn alpn_item() unwind 5 { super::super::bad::<E, 8>([0, 16, 0, 4, 0, 2, 1, 9], 6) }
        fn versions() unwind 5 { super::super::bad::<E, 9>([0, 0x2b, 0, 5, 4, S, S, S, S], 4) }
        fn key_share() unwind 5 { super::super::bad::<E, 12>([0, 0x33, 0, 8, 0, 6, S, S, 0, 2, S, S], 5) }
        fn key_share_item() unwind 5 { super::super::bad::<E, 12>([0, 0x33, 0, 8, 0, 6, S, S, 0, 2, S, S], 9) }
        fn psk_modes() unwind 5 { super::super::bad::<E, 7>([0, 0x2d, 0, 3, 2, S, S], 4) }
        fn psk_ids() unwind 5 { super::super::bad::<E, 19>([0, 0x29, 0, 15, 0, 8, 0, 2, S, S, S, S, S, S, 0, 3, 2, 9, 9], 5) }
        fn psk_id() unwind 5 { super::super::bad::<E, 19>([0, 0x29, 0, 15, 0, 8, 0, 2, 9, 9, 9, 9, 9, 9, 0, 3, 2, 9, 9], 7) }
        fn psk_binders() unwind 5 { super::super::bad::<E, 19>([0, 0x29, 0, 15, 0, 8, 0, 2, S, S, S, S, S, S, 0, 3, 2, S, S], 15) }
        fn cookie() unwind 5 { super::super::bad::<E, 8>([0, 0x2c, 0, 4, 0, 2, S, S], 5) }
        fn cookie_len() unwind 5 { super::super::bad::<E, 8>([0, 0x2c, 0, 4, 0, 2, S, S], 3) }
        fn status_ids() unwind 5 { super::super::bad::<E, 13>([0, 5, 0, 9, 1, 0, 3, 0, 1, S, 0, 1, S], 6) }
        fn status_exts() unwind 5 { super::super::bad::<E, 13>([0, 5, 0, 9, 1, 0, 3, 0, 1, S, 0, 1, S], 11) }
    }
}
/// Server names; the validator accepts everything here (see `names` for what it refuses).
pub mod sni {
    use super::*;
    const T: [i16; 11] = [0, 0, 0, 7, 0, 5, 0, 0, 2, S, S];
    fn ascii() -> [u8; 64] {
        let mut b = fill(T);
        b[9] &= 0x7f;
        b[10] &= 0x7f;
        b
    }
    #[inline(always)]
    fn refuse(at: usize, v: u8) {
        let mut b = ascii();
        b[at] = v;
        let got = ManuallyDrop::new(E::read(&mut Reader::init(&b[..11])));
        assert!(got.is_none());
    }
    harnesses_m! {
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn ext_6() unwind 6 { refuse(3, 6) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn ext_8() unwind 6 { refuse(3, 8) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn list_4() unwind 6 { refuse(5, 4) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn list_6() unwind 6 { refuse(5, 6) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn list_255() unwind 6 { refuse(5, 255) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn name_3() unwind 6 { refuse(8, 3) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn name_255() unwind 6 { refuse(8, 255) }
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn name_high_1() unwind 6 { refuse(7, 1) }
    }
    pub mod plain {
        use super::*;
        harnesses! {
        #[kani::stub(rustls_pki_types::server_name::validate, crate::names::anything)]
        fn one() unwind 6 {
            let b = ascii();
            #[cfg(not(kani))]
            assume(crate::names::valid(&b[9..11]));
            let mut r = Reader::init(&b[..11]);
            let got = ManuallyDrop::new(E::read(&mut r));
            assert!(!r.any_left());
            let Some(E::ServerName(l)) = &*got else { panic!() };
            assert!(l.len() == 1 && l[0].typ.get_u8() == 0);
            let ServerNamePayload::HostName((p, _)) = &l[0].payload else { panic!() };
            eqs(&p.0, &b, 9, 2);
        }
        }
    }
}
