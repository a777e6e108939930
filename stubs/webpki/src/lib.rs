//! Stands in for `rustls-webpki`, under Kani and natively: certificate processing answers what the harness
//! scripted in [`model`] and records what it was asked. Algorithms have the names of the real ones; errors carry less.

/// The algorithms: as in the real crate, ECDSA algorithms with one hash share their signature algorithm id,
/// and RSA algorithms share their key algorithm id.
pub mod ring {
    use pki_types::{alg_id::AlgorithmIdentifier, InvalidSignature, SignatureVerificationAlgorithm};
    #[derive(Debug)]
    struct Alg {
        pk: &'static [u8],
        sig: &'static [u8],
    }
    impl SignatureVerificationAlgorithm for Alg {
        fn verify_signature(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<(), InvalidSignature> {
            panic!("model: signature checked outside a certificate")
        }
        fn public_key_alg_id(&self) -> AlgorithmIdentifier {
            AlgorithmIdentifier::from_slice(self.pk)
        }
        fn signature_alg_id(&self) -> AlgorithmIdentifier {
            AlgorithmIdentifier::from_slice(self.sig)
        }
    }
    macro_rules! algs { ($($n:ident $pk:literal $sig:literal)*) => { $(pub static $n: &dyn SignatureVerificationAlgorithm = &Alg { pk: &[$pk], sig: &[$sig] };)* } }
    algs! {
        ECDSA_P256_SHA256 1 1 ECDSA_P256_SHA384 1 2 ECDSA_P384_SHA256 2 1 ECDSA_P384_SHA384 2 2 ED25519 3 3
        RSA_PKCS1_2048_8192_SHA256 4 4 RSA_PKCS1_2048_8192_SHA384 4 5 RSA_PKCS1_2048_8192_SHA512 4 6
        RSA_PSS_2048_8192_SHA256_LEGACY_KEY 4 7 RSA_PSS_2048_8192_SHA384_LEGACY_KEY 4 8 RSA_PSS_2048_8192_SHA512_LEGACY_KEY 4 9
    }
}
pub static ALL_VERIFICATION_ALGS: &[&dyn SignatureVerificationAlgorithm] = &[
    ring::ECDSA_P256_SHA256, ring::ECDSA_P256_SHA384, ring::ECDSA_P384_SHA256, ring::ECDSA_P384_SHA384, ring::ED25519,
    ring::RSA_PKCS1_2048_8192_SHA256, ring::RSA_PKCS1_2048_8192_SHA384, ring::RSA_PKCS1_2048_8192_SHA512,
    ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY, ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY, ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
];

#[derive(Clone, Debug)]
pub struct UnsupportedSignatureAlgorithmContext {
    pub signature_algorithm_id: Vec<u8>,
    pub supported_algorithms: Vec<pki_types::AlgorithmIdentifier>,
}
#[derive(Clone, Debug)]
pub struct UnsupportedSignatureAlgorithmForPublicKeyContext;
#[derive(Clone, Debug)]
pub struct InvalidNameContext;

#[derive(Clone, Debug)]
#[non_exhaustive]
pub enum Error {
    BadDer,
    BadDerTime,
    CaUsedAsEndEntity,
    CertExpired { time: UnixTime, not_after: UnixTime },
    CertNotValidForName(InvalidNameContext),
    CertNotValidYet { time: UnixTime, not_before: UnixTime },
    CertRevoked,
    EndEntityUsedAsCa,
    ExtensionValueInvalid,
    InvalidCertValidity,
    InvalidSignatureForPublicKey,
    NameConstraintViolation,
    PathLenConstraintViolated,
    RequiredEkuNotFound,
    SignatureAlgorithmMismatch,
    UnknownIssuer,
    UnsupportedCertVersion,
    UnsupportedCriticalExtension,
    UnsupportedNameType,
    UnsupportedSignatureAlgorithmContext(UnsupportedSignatureAlgorithmContext),
    UnsupportedSignatureAlgorithmForPublicKeyContext(UnsupportedSignatureAlgorithmForPublicKeyContext),
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("scripted error")
    }
}
impl std::error::Error for Error {}

use pki_types::{CertificateDer, ServerName, SignatureVerificationAlgorithm, TrustAnchor, UnixTime};

pub mod model {
    /// Answers: 0 success, otherwise an error (see `super::error`).
    #[derive(Clone, Copy)]
    pub struct Script {
        pub parse: u8,
        pub path: u8,
        pub name: u8,
        /// Answer of each of the eleven signature algorithms, in the order of [`super::ALL_VERIFICATION_ALGS`].
        pub sig: [u8; 11],
    }
    #[derive(Clone, Copy)]
    pub struct Seen {
        pub parsed: u8,
        pub path: u8,
        pub path_cert: *const u8,
        pub path_cert_len: usize,
        pub roots: *const u8,
        pub roots_len: usize,
        pub inter_len: usize,
        pub inter: [(*const u8, usize); 4],
        pub time: u64,
        pub server_auth: bool,
        pub optional: bool,
        pub name: u8,
        pub name_cert: *const u8,
        pub name_ok: bool,
        pub sigs: u8,
        pub sig_cert: *const u8,
        pub sig_args_ok: bool,
    }
    pub const NOTHING: Seen = Seen {
        parsed: 0, path: 0, path_cert: core::ptr::null(), path_cert_len: 0, roots: core::ptr::null(), roots_len: 0, inter_len: 0,
        inter: [(core::ptr::null(), 0); 4], time: 0, server_auth: false, optional: false, name: 0, name_cert: core::ptr::null(), name_ok: false,
        sigs: 0, sig_cert: core::ptr::null(), sig_args_ok: true,
    };
    pub static mut SCRIPT: Script = Script { parse: 0, path: 0, name: 0, sig: [0; 11] };
    pub static mut SEEN: Seen = NOTHING;
    /// The name, message and signature that the harness passes in.
    pub static mut NAME: &str = "";
    pub static mut MSG: &[u8] = &[];
    pub static mut SIG: &[u8] = &[];

    pub fn seen() -> Seen {
        unsafe { SEEN }
    }
}
use model::{SCRIPT, SEEN};

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

fn error(n: u8) -> Error {
    match n {
        1 => Error::BadDer,
        2 => Error::BadDerTime,
        3 => Error::InvalidSignatureForPublicKey,
        4 => Error::UnknownIssuer,
        5 => Error::UnsupportedSignatureAlgorithmForPublicKeyContext(UnsupportedSignatureAlgorithmForPublicKeyContext),
        _ => Error::CertNotValidForName(InvalidNameContext),
    }
}
fn answer(n: u8) -> Result<(), Error> {
    if n == 0 { Ok(()) } else { Err(error(n)) }
}

pub struct KeyUsage {
    server: bool,
}
impl KeyUsage {
    pub const fn server_auth() -> Self {
        KeyUsage { server: true }
    }
    pub const fn client_auth() -> Self {
        KeyUsage { server: false }
    }
}
pub struct RevocationOptions<'a>(core::marker::PhantomData<&'a ()>);
pub struct VerifiedPath<'a>(core::marker::PhantomData<&'a ()>);

/// Which of the eleven algorithms `alg` is.
pub fn which(alg: &dyn SignatureVerificationAlgorithm) -> usize {
    let (p, s) = (alg.public_key_alg_id(), alg.signature_alg_id());
    let (p, s): (&[u8], &[u8]) = (p.as_ref(), s.as_ref());
    match (p[0], s[0]) {
        (1, 1) => 0,
        (1, 2) => 1,
        (2, 1) => 2,
        (2, 2) => 3,
        (3, 3) => 4,
        (4, n) => n as usize + 1,
        _ => panic!("model: an algorithm TLS does not use"),
    }
}

pub struct EndEntityCert<'a> {
    der: &'a [u8],
}

impl<'a> TryFrom<&'a CertificateDer<'a>> for EndEntityCert<'a> {
    type Error = Error;
    fn try_from(der: &'a CertificateDer<'a>) -> Result<Self, Error> {
        unsafe {
            SEEN.parsed += 1;
            if SCRIPT.parse != 0 {
                return Err(error(SCRIPT.parse));
            }
        }
        Ok(Self { der: der.as_ref() })
    }
}

impl EndEntityCert<'_> {
    pub fn verify_for_usage<'p>(
        &'p self,
        _algs: &[&dyn SignatureVerificationAlgorithm],
        roots: &'p [TrustAnchor<'_>],
        intermediates: &'p [CertificateDer<'p>],
        time: UnixTime,
        usage: KeyUsage,
        revocation: Option<RevocationOptions<'_>>,
        path: Option<&dyn Fn(&VerifiedPath<'_>) -> Result<(), Error>>,
    ) -> Result<VerifiedPath<'p>, Error> {
        unsafe {
            SEEN.path += 1;
            SEEN.path_cert = self.der.as_ptr();
            SEEN.path_cert_len = self.der.len();
            SEEN.roots = roots.as_ptr() as *const u8;
            SEEN.roots_len = roots.len();
            SEEN.inter_len = intermediates.len();
            let mut i = 0;
            while i < intermediates.len() && i < 4 {
                let d: &[u8] = intermediates[i].as_ref();
                SEEN.inter[i] = (d.as_ptr(), d.len());
                i += 1;
            }
            SEEN.time = time.as_secs();
            SEEN.server_auth = usage.server;
            SEEN.optional = revocation.is_some() || path.is_some();
            answer(SCRIPT.path)?;
        }
        Ok(VerifiedPath(core::marker::PhantomData))
    }

    pub fn verify_is_valid_for_subject_name(&self, name: &ServerName<'_>) -> Result<(), Error> {
        unsafe {
            SEEN.name += 1;
            SEEN.name_cert = self.der.as_ptr();
            SEEN.name_ok = match name {
                ServerName::DnsName(d) => same(d.as_ref().as_bytes(), model::NAME.as_bytes()),
                _ => false,
            };
            answer(SCRIPT.name)
        }
    }

    pub fn verify_signature(&self, alg: &dyn SignatureVerificationAlgorithm, msg: &[u8], sig: &[u8]) -> Result<(), Error> {
        unsafe {
            SEEN.sigs += 1;
            SEEN.sig_cert = self.der.as_ptr();
            SEEN.sig_args_ok &= same(msg, model::MSG) && same(sig, model::SIG);
            answer(SCRIPT.sig[which(alg)])
        }
    }
}
