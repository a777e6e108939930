//! Lookups and duplicates in extension lists.
use super::*;
use tls_core::key::Certificate;

fn hello(x: Vec<ClientExtension>) -> ManuallyDrop<ClientHelloPayload> {
    ManuallyDrop::new(ClientHelloPayload {
        client_version: ProtocolVersion::TLSv1_2,
        random: Random([0; 32]),
        session_id: SessionID::empty(),
        cipher_suites: Vec::with_capacity(1),
        compression_methods: Vec::with_capacity(1),
        extensions: x,
    })
}
fn server(x: Vec<ServerExtension>) -> ManuallyDrop<ServerHelloPayload> {
    ManuallyDrop::new(ServerHelloPayload {
        legacy_version: ProtocolVersion::TLSv1_2,
        random: Random([0; 32]),
        session_id: SessionID::empty(),
        cipher_suite: CipherSuite::Unknown(1),
        compression_method: Compression::Null,
        extensions: x,
    })
}
fn retry(x: Vec<HelloRetryExtension>) -> ManuallyDrop<HelloRetryRequest> {
    ManuallyDrop::new(HelloRetryRequest { legacy_version: ProtocolVersion::TLSv1_2, session_id: SessionID::empty(), cipher_suite: CipherSuite::Unknown(1), extensions: x })
}
fn unk(n: u16) -> UnknownExtension {
    UnknownExtension { typ: ExtensionType::Unknown(n), payload: Payload(Vec::with_capacity(1)) }
}
fn v3<T>(a: T, b: T, c: T) -> Vec<T> {
    let mut v = Vec::with_capacity(3);
    v.push(a);
    v.push(b);
    v.push(c);
    v
}
fn dup(n: [u16; 3]) -> bool {
    n[0] == n[1] || n[0] == n[2] || n[1] == n[2]
}

pub mod dups {
    use super::*;
harnesses! {
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn client() unwind 6 {
        let n: [u16; 3] = any();
        let h = hello(v3(ClientExtension::Unknown(unk(n[0])), ClientExtension::Unknown(unk(n[1])), ClientExtension::Unknown(unk(n[2]))));
        let d = h.has_duplicate_extension();
        assert!(d == dup(n));
        reach!(d);
        reach!(!d);
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn client_known() unwind 6 {
        // a known type and the same code unknown
        let n: u16 = any();
        let h = hello(v2(ClientExtension::EarlyData, ClientExtension::Unknown(unk(n))));
        assert!(h.has_duplicate_extension() == (n == 0x2a));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn server() unwind 6 {
        let n: [u16; 3] = any();
        let h = super::server(v3(ServerExtension::Unknown(unk(n[0])), ServerExtension::Unknown(unk(n[1])), ServerExtension::Unknown(unk(n[2]))));
        assert!(h.has_duplicate_extension() == dup(n));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn server_known() unwind 6 {
        let n: u16 = any();
        let h = super::server(v2(ServerExtension::ExtendedMasterSecretAck, ServerExtension::Unknown(unk(n))));
        assert!(h.has_duplicate_extension() == (n == 0x17));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn encrypted() unwind 6 {
        let n: [u16; 3] = any();
        let h: ManuallyDrop<EncryptedExtensions> = ManuallyDrop::new(v3(ServerExtension::Unknown(unk(n[0])), ServerExtension::Unknown(unk(n[1])), ServerExtension::Unknown(unk(n[2]))));
        assert!(h.has_duplicate_extension() == dup(n));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn retry() unwind 6 {
        let n: [u16; 3] = any();
        let h = super::retry(v3(HelloRetryExtension::Unknown(unk(n[0])), HelloRetryExtension::Unknown(unk(n[1])), HelloRetryExtension::Unknown(unk(n[2]))));
        assert!(h.has_duplicate_extension() == dup(n));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn entry() unwind 6 {
        let n: [u16; 3] = any();
        let h = ManuallyDrop::new(CertificateEntry {
            cert: Certificate(Vec::with_capacity(1)),
            exts: v3(CertificateExtension::Unknown(unk(n[0])), CertificateExtension::Unknown(unk(n[1])), CertificateExtension::Unknown(unk(n[2]))),
        });
        assert!(h.has_duplicate_extension() == dup(n));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn ticket() unwind 6 {
        let n: [u16; 3] = any();
        let h = ManuallyDrop::new(NewSessionTicketPayloadTLS13 {
            lifetime: 0,
            age_add: 0,
            nonce: PayloadU8(Vec::with_capacity(1)),
            ticket: PayloadU16(Vec::with_capacity(1)),
            exts: v3(NewSessionTicketExtension::Unknown(unk(n[0])), NewSessionTicketExtension::Unknown(unk(n[1])), NewSessionTicketExtension::Unknown(unk(n[2]))),
        });
        assert!(h.has_duplicate_extension() == dup(n));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn key_shares() unwind 6 {
        let n: [u16; 3] = any();
        let k = |i: usize| KeyShareEntry { group: NamedGroup::from(n[i]), payload: PayloadU16(Vec::with_capacity(1)) };
        let h = hello(v1(ClientExtension::KeyShare(v3(k(0), k(1), k(2)))));
        assert!(h.has_keyshare_extension_with_duplicates() == dup(n));
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn no_key_shares() unwind 6 {
        let h = hello(v1(ClientExtension::EarlyData));
        assert!(!h.has_keyshare_extension_with_duplicates());
    }
    #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
    #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
    #[kani::stub(std::collections::HashSet::contains, vk::hashset::Model::contains)]
    fn entries() unwind 6 {
        // an entry of the chain other than the first
        let n: [u16; 2] = any();
        let e = ManuallyDrop::new(CertificatePayloadTLS13 {
            context: PayloadU8(Vec::with_capacity(1)),
            entries: v2(
                CertificateEntry { cert: Certificate(Vec::with_capacity(1)), exts: Vec::with_capacity(1) },
                CertificateEntry { cert: Certificate(Vec::with_capacity(1)), exts: v2(CertificateExtension::Unknown(unk(n[0])), CertificateExtension::Unknown(unk(n[1]))) },
            ),
        });
        assert!(e.any_entry_has_duplicate_extension() == (n[0] == n[1]));
        assert!(e.any_entry_has_extension());
    }
}
}
pub mod find {
    use super::*;
    use ClientExtension as C;
    use ServerExtension as E;
    harnesses! {
        fn client() unwind 6 {
            // the first with the type asked for
            let n: [u16; 3] = any();
            let h = hello(v3(C::Unknown(unk(n[0])), C::Unknown(unk(n[1])), C::Unknown(unk(n[2]))));
            let t: u16 = any();
            let got = h.find_extension(ExtensionType::Unknown(t));
            let k = if n[0] == t { 0 } else if n[1] == t { 1 } else if n[2] == t { 2 } else { 3 };
            assert!(got.is_some() == (k < 3));
            if let Some(x) = got {
                assert!(core::ptr::eq(x, &h.extensions[k]));
            }
            reach!(k == 2);
        }
        fn server() unwind 6 {
            let n: [u16; 3] = any();
            let h = super::server(v3(E::Unknown(unk(n[0])), E::Unknown(unk(n[1])), E::Unknown(unk(n[2]))));
            let t: u16 = any();
            let got = h.find_extension(ExtensionType::Unknown(t));
            let k = if n[0] == t { 0 } else if n[1] == t { 1 } else if n[2] == t { 2 } else { 3 };
            assert!(got.is_some() == (k < 3));
            if let Some(x) = got {
                assert!(core::ptr::eq(x, &h.extensions[k]));
            }
        }
        fn client_parts() unwind 6 {
            let a: [u16; 3] = any();
            let h = hello(v3(C::NamedGroups(v1(NamedGroup::from(a[0]))), C::SignatureAlgorithms(v1(SignatureScheme::from(a[1]))), C::SupportedVersions(v1(ProtocolVersion::from(a[2])))));
            assert!(h.get_namedgroups_extension().unwrap()[0].get_u16() == a[0]);
            assert!(h.get_sigalgs_extension().unwrap()[0].get_u16() == a[1]);
            assert!(h.get_versions_extension().unwrap()[0].get_u16() == a[2]);
            assert!(h.get_ecpoints_extension().is_none() && h.get_alpn_extension().is_none() && h.get_sni_extension().is_none() && h.get_psk().is_none());
            assert!(h.get_keyshare_extension().is_none() && h.get_psk_modes().is_none() && h.get_ticket_extension().is_none());
            assert!(!h.ems_support_offered() && !h.early_data_extension_offered() && !h.check_psk_ext_is_last());
        }
        fn client_parts2() unwind 6 {
            let a: [u8; 3] = any();
            let h = hello(v3(C::ECPointFormats(v1(ECPointFormat::from(a[0]))), C::PresharedKeyModes(v1(PSKKeyExchangeMode::from(a[1]))), C::Protocols(v1(PayloadU8(v1(a[2]))))));
            assert!(h.get_ecpoints_extension().unwrap()[0].get_u8() == a[0]);
            assert!(h.get_psk_modes().unwrap()[0].get_u8() == a[1]);
            eqs(h.get_alpn_extension().unwrap().as_single_slice().unwrap(), &a, 2, 1);
            assert!(h.psk_mode_offered(PSKKeyExchangeMode::PSK_KE) == (a[1] == 0));
            assert!(h.psk_mode_offered(PSKKeyExchangeMode::PSK_DHE_KE) == (a[1] == 1));
        }
        fn client_flags() unwind 6 {
            let h = hello(v3(C::ExtendedMasterSecretRequest, C::EarlyData, C::SessionTicket(ClientSessionTicket::Request)));
            assert!(h.ems_support_offered() && h.early_data_extension_offered() && h.get_ticket_extension().is_some());
        }
        fn psk_last() unwind 6 {
            let o = || PresharedKeyOffer { identities: Vec::with_capacity(1), binders: Vec::with_capacity(1) };
            assert!(hello(v2(C::EarlyData, C::PresharedKey(o()))).check_psk_ext_is_last());
            assert!(!hello(v2(C::PresharedKey(o()), C::EarlyData)).check_psk_ext_is_last());
            assert!(!hello(Vec::with_capacity(1)).check_psk_ext_is_last());
        }
        fn server_parts() unwind 6 {
            let a: [u16; 3] = any();
            let h = super::server(v3(
                E::KeyShare(KeyShareEntry { group: NamedGroup::from(a[0]), payload: PayloadU16(Vec::with_capacity(1)) }),
                E::SupportedVersions(ProtocolVersion::from(a[1])),
                E::PresharedKey(a[2]),
            ));
            assert!(h.get_key_share().unwrap().group.get_u16() == a[0]);
            assert!(h.get_supported_versions().unwrap().get_u16() == a[1]);
            assert!(h.get_psk_index() == Some(a[2]));
            assert!(h.get_ecpoints_extension().is_none() && h.get_sct_list().is_none() && h.get_alpn_protocol().is_none());
            assert!(!h.ems_support_acked() && !h.early_data_extension_offered());
        }
        fn server_parts2() unwind 6 {
            let a: [u8; 2] = any();
            let h = super::server(v3(E::ECPointFormats(v1(ECPointFormat::from(a[0]))), E::Protocols(v1(PayloadU8(v1(a[1])))), E::ExtendedMasterSecretAck));
            assert!(h.get_ecpoints_extension().unwrap()[0].get_u8() == a[0]);
            eqs(h.get_alpn_protocol().unwrap(), &a, 1, 1);
            assert!(h.ems_support_acked());
            assert!(h.get_key_share().is_none() && h.get_psk_index().is_none() && h.get_supported_versions().is_none());
        }
        fn alpn_two() unwind 6 {
            // two protocols in an answer are not one
            let h = super::server(v1(E::Protocols(v2(PayloadU8(v1(1)), PayloadU8(v1(2))))));
            assert!(h.get_alpn_protocol().is_none());
        }
        fn retry_parts() unwind 6 {
            let a: [u16; 2] = any();
            let c: u8 = any();
            let h = retry(v3(HelloRetryExtension::KeyShare(NamedGroup::from(a[0])), HelloRetryExtension::SupportedVersions(ProtocolVersion::from(a[1])), HelloRetryExtension::Cookie(PayloadU16(v1(c)))));
            assert!(h.get_requested_key_share_group().unwrap().get_u16() == a[0]);
            assert!(h.get_supported_versions().unwrap().get_u16() == a[1]);
            eqs(&h.get_cookie().unwrap().0, &[c], 0, 1);
            assert!(!h.has_unknown_extension());
        }
        fn retry_unknown() unwind 6 {
            let n: u16 = any();
            let h = retry(v2(HelloRetryExtension::KeyShare(NamedGroup::X25519), HelloRetryExtension::Unknown(UnknownExtension { typ: ExtensionType::from(n), payload: Payload(Vec::with_capacity(1)) })));
            assert!(h.has_unknown_extension() == (n != 0x33 && n != 0x2b && n != 0x2c));
        }
        fn chain() unwind 6 {
            let a: [u8; 3] = any();
            let n: u16 = any();
            let e = ManuallyDrop::new(CertificatePayloadTLS13 {
                context: PayloadU8(Vec::with_capacity(1)),
                entries: v2(
                    CertificateEntry { cert: Certificate(v1(a[0])), exts: v2(CertificateExtension::CertificateStatus(CertificateStatus { ocsp_response: PayloadU24(v1(a[1])) }), CertificateExtension::SignedCertificateTimestamp(v1(PayloadU16(v1(a[2]))))) },
                    CertificateEntry { cert: Certificate(v1(a[1])), exts: v1(CertificateExtension::Unknown(UnknownExtension { typ: ExtensionType::from(n), payload: Payload(Vec::with_capacity(1)) })) },
                ),
            });
            assert!(e.any_entry_has_unknown_extension() == (n != 5 && n != 0x12));
            let c = ManuallyDrop::new(e.convert());
            assert!(c.len() == 2);
            eqs(&c[0].0, &a, 0, 1);
            eqs(&c[1].0, &a, 1, 1);
            eqs(&ManuallyDrop::new(e.get_end_entity_ocsp()), &a, 1, 1);
        }
        fn request() unwind 6 {
            let a: u16 = any();
            let c: u8 = any();
            let r = ManuallyDrop::new(CertificateRequestPayloadTLS13 {
                context: PayloadU8(Vec::with_capacity(1)),
                extensions: v2(CertReqExtension::AuthorityNames(v1(PayloadU16(v1(c)))), CertReqExtension::SignatureAlgorithms(v1(SignatureScheme::from(a)))),
            });
            assert!(r.get_sigalgs_extension().unwrap()[0].get_u16() == a);
            eqs(&r.get_authorities_extension().unwrap()[0].0, &[c], 0, 1);
        }
        fn ticket() unwind 6 {
            let n: u32 = any();
            let t = ManuallyDrop::new(NewSessionTicketPayloadTLS13 {
                lifetime: 0,
                age_add: 0,
                nonce: PayloadU8(Vec::with_capacity(1)),
                ticket: PayloadU16(Vec::with_capacity(1)),
                exts: v2(NewSessionTicketExtension::Unknown(unk(7)), NewSessionTicketExtension::EarlyData(n)),
            });
            assert!(t.get_max_early_data_size() == Some(n));
        }
    }
}
