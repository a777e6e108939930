//! Stands in for `sct`, under Kani and natively: the verdict on each timestamp is scripted by its first byte.
pub use real::{Error, Log};

pub mod model {
    #[derive(Clone, Copy)]
    pub struct Seen {
        pub calls: u8,
        pub cert_ok: bool,
        pub time: u64,
        pub logs: usize,
    }
    pub static mut SEEN: Seen = Seen { calls: 0, cert_ok: true, time: 0, logs: 0 };
    pub static mut CERT: *const u8 = core::ptr::null();
    pub fn seen() -> Seen {
        unsafe { SEEN }
    }
}

/// The first byte of `sct` is the answer: 0 success, otherwise an error.
pub fn verify_sct(cert: &[u8], sct: &[u8], at_time: u64, logs: &[&Log]) -> Result<usize, Error> {
    unsafe {
        model::SEEN.calls += 1;
        model::SEEN.cert_ok &= cert.as_ptr() == model::CERT;
        model::SEEN.time = at_time;
        model::SEEN.logs = logs.len();
    }
    match sct[0] {
        0 => Ok(0),
        1 => Err(Error::UnknownLog),
        2 => Err(Error::UnsupportedSctVersion),
        3 => Err(Error::MalformedSct),
        4 => Err(Error::InvalidSignature),
        _ => Err(Error::TimestampInFuture),
    }
}
