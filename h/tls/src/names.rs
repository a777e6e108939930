//! C16: server names.
use core::mem::ManuallyDrop;
use tls_core::{
    dns::ServerName,
    msgs::{
        codec::{Codec, Reader},
        enums::ServerNameType,
        handshake::{ClientExtension, ConvertServerNameList, ServerName as Sni, ServerNamePayload},
    },
};
use vk::{any, assume, harnesses, harnesses_m, idx, reach};

/// A syntactically valid DNS name (RFC 1123 labels, `_` allowed, optional trailing dot, last label not
/// all digits, so that no dotted address is a name). Written backwards, from the end of the name.
pub fn valid(s: &[u8]) -> bool {
    if s.len() > 253 {
        return false;
    }
    let mut end = s.len();
    if end > 0 && s[end - 1] == b'.' {
        end -= 1;
    }
    if end == 0 {
        return false;
    }
    let (mut ok, mut last, mut digits, mut n) = (true, true, true, 0usize);
    let mut i = end;
    while i > 0 {
        i -= 1;
        let c = s[i];
        if c == b'.' {
            // start of the label after this dot
            ok &= n > 0 && s[i + 1] != b'-' && !(last && digits);
            last = false;
            n = 0;
        } else {
            let d = c >= b'0' && c <= b'9';
            let a = (c | 32) >= b'a' && (c | 32) <= b'z';
            ok &= d || a || c == b'_' || (c == b'-' && n > 0);
            digits &= d;
            n += 1;
            ok &= n <= 63;
        }
    }
    ok && n > 0 && s[0] != b'-' && !(last && digits)
}

fn text<const N: usize>() -> ([u8; N], bool) {
    let b: [u8; N] = any();
    for i in 0..N {
        assume(b[i] < 0x80);
    }
    let v = valid(&b);
    (b, v)
}

/// All ASCII strings of length `N`.
fn parse<const N: usize>() {
    let (b, v) = text::<N>();
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let r = ManuallyDrop::new(ServerName::try_from(s));
    assert!(r.is_ok() == v);
    reach!(N < 1 || v);
    reach!(!v);
}

/// In the harnesses of `keep` any text is taken for a name: what is accepted is decided above.
#[cfg(kani)]
pub const fn anything(_: &[u8]) -> Result<(), rustls_pki_types::InvalidDnsNameError> {
    Ok(())
}

fn name<const N: usize>(last: u8) -> ([u8; N], ManuallyDrop<ServerName>) {
    let mut b: [u8; N] = any();
    for i in 0..N {
        assume(b[i] < 0x80);
    }
    b[N - 1] = last;
    #[cfg(not(kani))]
    assume(valid(&b));
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let Ok(name) = ServerName::try_from(s) else { panic!("refused") };
    (b, ManuallyDrop::new(name))
}

/// An accepted name is the text given.
fn kept<const N: usize>() {
    let (b, name) = name::<N>(b'e');
    let e = ManuallyDrop::new(name.encode());
    assert!(e.len() == N + 2 && e[0] == 1 && e[1] as usize == N);
    let i = idx(N);
    assert!(e[2 + i] == b[i]);
    reach!(valid(&b));
}

/// The name for the SNI is the text given.
fn for_sni<const N: usize>() {
    let (b, name) = name::<N>(b'e');
    let d = ManuallyDrop::new(name.for_sni());
    let Some(d) = &*d else { panic!("no SNI") };
    let t: &str = d.as_ref();
    assert!(t.len() == N);
    let i = idx(N);
    assert!(t.as_bytes()[i] == b[i]);
    reach!(valid(&b));
}

/// What is sent is the name without its trailing dot.
fn sni<const N: usize>(dot: bool) {
    let (b, name) = name::<N>(if dot { b'.' } else { b'e' });
    let ext = ManuallyDrop::new(ClientExtension::make_sni(name.for_sni().unwrap()));
    let n = if dot { N - 1 } else { N };
    let ClientExtension::ServerName(list) = &*ext else { panic!("not an SNI") };
    assert!(list.len() == 1 && list[0].typ == ServerNameType::HostName);
    let ServerNamePayload::HostName((raw, d)) = &list[0].payload else { panic!("not a host name") };
    let t: &str = d.as_ref();
    assert!(raw.0.len() == n && t.len() == n);
    let j = idx(n);
    assert!(raw.0[j] == b[j] && t.as_bytes()[j] == b[j]);
    reach!(valid(&b));
}

pub mod keep {
    use super::*;
    harnesses! {
        #[kani::stub(rustls_pki_types::server_name::validate, anything)]
        fn encode_1() unwind 10 { kept::<1>() }
        #[kani::stub(rustls_pki_types::server_name::validate, anything)]
        fn encode_6() unwind 10 { kept::<6>() }
        #[kani::stub(rustls_pki_types::server_name::validate, anything)]
        fn encode_60() unwind 63 { kept::<60>() }
        #[kani::stub(rustls_pki_types::server_name::validate, anything)]
        fn for_sni_6() unwind 10 { for_sni::<6>() }
        #[kani::stub(rustls_pki_types::server_name::validate, anything)]
        fn sni_plain() unwind 10 { sni::<3>(false) }
        #[kani::stub(rustls_pki_types::server_name::validate, anything)]
        fn sni_dot() unwind 10 { sni::<4>(true) }
    }
}

/// `N` bytes of which the one at `at` is any character but a dot.
fn long<const N: usize>(at: usize, want: bool) {
    let mut b = [b'a'; N];
    let c: u8 = any();
    assume(c < 0x80 && c != b'.');
    // dots every 63 labels when longer than one label
    let mut k = 63;
    while k < N && N > 65 {
        b[k] = b'.';
        k += 64;
    }
    b[at] = c;
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let r = ManuallyDrop::new(ServerName::try_from(s)).is_ok();
    assert!(r == (want && valid(&b)));
    reach!(r == want);
}

/// A received host name: accepted only if it is a DNS name, and then as it stands.
fn received<const N: usize>() {
    let b: [u8; N] = any();
    let mut v = Vec::with_capacity(N + 8);
    v.push(0);
    v.push(0);
    v.push(N as u8);
    for i in 0..N {
        v.push(b[i]);
    }
    let mut r = Reader::init(&v);
    let got = ManuallyDrop::new(Sni::read(&mut r));
    assert!(got.is_some() == valid(&b));
    if let Some(n) = &*got {
        assert!(n.typ == ServerNameType::HostName);
        assert!(!r.any_left());
        match &n.payload {
            ServerNamePayload::HostName((raw, d)) => {
                let t: &str = d.as_ref();
                assert!(t.len() == N && raw.0.len() == N);
                let i = idx(N);
                assert!(t.as_bytes()[i] == b[i] && raw.0[i] == b[i]);
            }
            _ => assert!(false),
        }
        reach!(true);
    }
    reach!(got.is_none());
}

fn entry(t: u8) -> Sni {
    Sni { typ: ServerNameType::from(t), payload: ServerNamePayload::Unknown(tls_core::msgs::base::Payload::new(Vec::new())) }
}

pub mod set {
    use super::*;
    harnesses! {
        #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
        #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
        fn duplicates() unwind 6 {
            let t: [u8; 3] = any();
            let e = ManuallyDrop::new(vec![entry(t[0]), entry(t[1]), entry(t[2])]);
            let want = t[0] == t[1] || t[0] == t[2] || t[1] == t[2];
            assert!(e.has_duplicate_names_for_type() == want);
            reach!(want);
            reach!(!want);
        }
        #[kani::stub(std::collections::HashSet::new, vk::hashset::new)]
        #[kani::stub(std::collections::HashSet::insert, vk::hashset::insert)]
        fn no_duplicates_in_one() unwind 6 {
            let t: u8 = any();
            let e = ManuallyDrop::new(vec![entry(t)]);
            assert!(!e.has_duplicate_names_for_type());
        }
    }
}

harnesses! {
    fn parse_0() unwind 4 { parse::<0>() }
    fn parse_1() unwind 5 { parse::<1>() }
    fn parse_2() unwind 6 { parse::<2>() }
    fn parse_4() unwind 8 { parse::<4>() }
    fn parse_7() unwind 11 { parse::<7>() }
    fn parse_8() unwind 12 { parse::<8>() }
    fn parse_12() unwind 16 { parse::<12>() }
    fn label_63() unwind 66 { long::<63>(62, true) }
    fn label_64() unwind 67 { long::<64>(63, false) }
    fn name_253() unwind 256 { long::<253>(252, true) }
    fn name_254() unwind 257 { long::<254>(0, false) }
    fn received_1() unwind 6 { received::<1>() }
    fn received_3() unwind 10 { received::<3>() }
    fn received_5() unwind 12 { received::<5>() }
}
