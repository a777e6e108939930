//! C13 (record authentication data) and C15 (DER wrapping).
use tls_core::{cipher::make_tls12_aad, msgs::enums::*, x509};
use vk::{any, assume, harnesses, idx, reach};

/// Wraps `L` symbolic bytes; `len` is the expected length octets.
fn wrap<const L: usize>(seq: bool, len: &[u8]) {
    let mut v: Vec<u8> = Vec::with_capacity(L + 16);
    let b: [u8; L] = any();
    v.extend_from_slice(&b);
    if seq { x509::wrap_in_sequence(&mut v) } else { x509::wrap_in_asn1_len(&mut v) }
    let h = len.len() + seq as usize;
    assert!(v.len() == h + L);
    if seq {
        assert!(v[0] == 0x30);
    }
    for i in 0..len.len() {
        assert!(v[seq as usize + i] == len[i]);
    }
    if L > 0 {
        let i = idx(L);
        assert!(v[h + i] == b[i]);
        reach!(b[i] == 0x30);
    }
}

fn wrap0(seq: bool) {
    let mut v: Vec<u8> = Vec::with_capacity(16);
    v.push(7);
    v.truncate(0);
    if seq { x509::wrap_in_sequence(&mut v) } else { x509::wrap_in_asn1_len(&mut v) }
    if seq { assert!(v.len() == 2 && v[0] == 0x30 && v[1] == 0) } else { assert!(v.len() == 1 && v[0] == 0) }
}

harnesses! {
    fn aad_layout() unwind 10 {
        let (seq, t, v): (u64, u8, u16) = (any(), any(), any());
        let len: usize = any();
        assume(len <= 0xffff);
        let aad = make_tls12_aad(seq, ContentType::from(t), ProtocolVersion::from(v), len);
        let s = seq.to_be_bytes();
        let i = idx(8);
        assert!(aad.len() == 13);
        assert!(aad[i] == s[i]);
        assert!(aad[8] == t);
        assert!(aad[9] == (v >> 8) as u8 && aad[10] == v as u8);
        assert!(aad[11] == (len >> 8) as u8 && aad[12] == len as u8);
        reach!(len == 0x1234 && t == 23 && v == 0x0303 && seq == u64::MAX);
    }
    fn aad_injective() unwind 16 {
        let (s1, t1, v1, l1): (u64, u8, u16, u16) = (any(), any(), any(), any());
        let (s2, t2, v2, l2): (u64, u8, u16, u16) = (any(), any(), any(), any());
        let a = make_tls12_aad(s1, ContentType::from(t1), ProtocolVersion::from(v1), l1 as usize);
        let b = make_tls12_aad(s2, ContentType::from(t2), ProtocolVersion::from(v2), l2 as usize);
        assert!((a == b) == (s1 == s2 && t1 == t2 && v1 == v2 && l1 == l2));
        reach!(a == b);
        reach!(s1 != s2 && t1 == t2 && v1 == v2 && l1 == l2);
    }
    fn wrap_0() unwind 10 { wrap0(true) }
    fn wrap_0b() unwind 10 { wrap0(false) }
    fn wrap_3() unwind 10 { wrap::<3>(true, &[3]); wrap::<3>(false, &[3]) }
    fn wrap_127() unwind 10 { wrap::<127>(true, &[127]) }
    fn wrap_128() unwind 10 { wrap::<128>(true, &[0x81, 128]) }
    fn wrap_255() unwind 10 { wrap::<255>(true, &[0x81, 255]) }
    fn wrap_256() unwind 10 { wrap::<256>(true, &[0x82, 1, 0]) }
    fn wrap_300() unwind 10 { wrap::<300>(false, &[0x82, 1, 44]) }
}
