//! C10: acceptance of server certificates.
use core::mem::ManuallyDrop;
use sct::Log;
use std::time::{Duration, SystemTime};
use tls_core::{anchors::RootCertStore, dns::ServerName, key::Certificate, verify::*};
use vk::{any, assume, harnesses, reach};
use webpki::model::{SCRIPT, seen};

static LOG: Log<'static> = Log { description: "", url: "", operated_by: "", key: &[], id: [0; 32], max_merge_delay: 0 };
static LOGS: &[&Log<'static>] = &[&LOG];
static NO_LOGS: &[&Log<'static>] = &[];

fn cert(b: u8) -> Certificate {
    Certificate(vec![b, 7])
}

fn roots(n: usize) -> RootCertStore {
    let mut r = RootCertStore { roots: Vec::with_capacity(2) };
    for _ in 0..n {
        r.roots.push(rustls_pki_types::TrustAnchor { subject: vec![1].into(), subject_public_key_info: vec![2].into(), name_constraints: None });
    }
    r
}

/// A point in time around `EPOCH`, whole seconds.
fn when(before: bool, secs: u64) -> SystemTime {
    if before { SystemTime::UNIX_EPOCH - Duration::from_secs(secs) } else { SystemTime::UNIX_EPOCH + Duration::from_secs(secs) }
}

struct In {
    /// Answers of parsing, path and name.
    answers: [u8; 3],
    before: bool,
    secs: u64,
    inter: usize,
    /// Transparency policy: none, no logs, one log.
    policy: u8,
    deadline: u64,
    scts: usize,
    /// The verdict on the first timestamp.
    first: u8,
}

fn small(max: u8) -> u8 {
    let n: u8 = any();
    assume(n <= max);
    n
}

/// `N` timestamps.
fn run(i: In) {
    let In { answers, before, secs, inter, policy, deadline, scts, first } = i;
    unsafe {
        SCRIPT.parse = answers[0];
        SCRIPT.path = answers[1];
        SCRIPT.name = answers[2];
        webpki::model::NAME = "a.bc";
    }
    let ee = ManuallyDrop::new(cert(1));
    let im = ManuallyDrop::new([cert(2), cert(3)]);
    unsafe { sct::model::CERT = ee.0.as_ptr() };
    let name = ManuallyDrop::new(ServerName::try_from("a.bc").unwrap());
    let p = match policy {
        0 => None,
        1 => Some(CertificateTransparencyPolicy::new(NO_LOGS, when(false, deadline))),
        _ => Some(CertificateTransparencyPolicy::new(LOGS, when(false, deadline))),
    };
    let v = ManuallyDrop::new(WebPkiVerifier::new(roots(1), p));
    // not one array of arrays: Kani misreads the second element of those
    let (s0, s1) = ([first, 0, 0], [small(5), 0, 0]);
    let list = [&s0[..1], &s1[..1]];
    let s = [first, s1[0]];
    let mut it = list[..scts].iter().copied();
    let now = when(before, secs);
    let r = ManuallyDrop::new(v.verify_server_cert(&ee, &im[..inter], &name, &mut it, &[], now));

    // the policy is in force: some log, deadline not passed
    let early = before && secs > 0;
    let in_force = policy == 2 && (early || secs <= deadline);
    let fatal = |b: u8| b >= 3;
    let ct = if !in_force || scts == 0 || s[0] == 0 {
        true
    } else if fatal(s[0]) || scts == 1 {
        false
    } else {
        s[1] == 0
    };
    let want = answers == [0; 3] && !early && ct;
    assert!(r.is_ok() == want);
    let w = seen();
    if r.is_ok() {
        assert!(w.path == 1 && w.name == 1);
        assert!(w.path_cert == ee.0.as_ptr() && w.path_cert_len == 2);
        assert!(w.name_cert == ee.0.as_ptr() && w.name_ok);
        assert!(w.roots == v.root_store().roots.as_ptr() as *const u8 && w.roots_len == 1);
        assert!(w.inter_len == inter);
        for k in 0..inter {
            assert!(w.inter[k] == (im[k].0.as_ptr(), 2));
        }
        assert!(w.server_auth);
        assert!(w.time == secs);
    }
    let c = sct::model::seen();
    if c.calls > 0 {
        assert!(in_force && c.cert_ok && c.logs == 1);
        assert!(c.time == secs * 1000);
    }
    reach!(r.is_ok());
    reach!(r.is_err());
}

fn times() -> (u64, u64) {
    let (s, d): (u64, u64) = (any(), any());
    assume(s < 1 << 40 && d < 1 << 40);
    (s, d)
}

harnesses! {
    /// Every combination of answers, any time after 1970.
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn answers() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [small(5), small(5), small(5)], before: false, secs, inter: 1, policy: 0, deadline, scts: 0, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn answers_text() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0, small(6), small(6)], before: false, secs, inter: 1, policy: 0, deadline, scts: 0, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn before_1970() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0; 3], before: true, secs, inter: 1, policy: 0, deadline, scts: 0, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn intermediates() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0, small(2), small(2)], before: false, secs, inter: 2, policy: 0, deadline, scts: 0, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn no_logs() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0, small(1), small(1)], before: false, secs, inter: 1, policy: 1, deadline, scts: 2, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn logs_no_scts() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0, small(1), small(1)], before: false, secs, inter: 1, policy: 2, deadline, scts: 0, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn one_sct() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0, small(1), small(1)], before: false, secs, inter: 1, policy: 2, deadline, scts: 1, first: small(5) })
    }
    #[kani::stub(std::fmt::format, crate::no_format)]
    fn two_scts() unwind 5 {
        let (secs, deadline) = times();
        run(In { answers: [0, 0, small(1)], before: false, secs, inter: 1, policy: 2, deadline, scts: 2, first: small(5) })
    }
}
