//! Harnesses over the real tls-core with certificate processing (webpki, sct) scripted.
pub mod cert;
pub mod sig;

#[cfg(not(kani))]
pub fn replay_main() -> i32 {
    vk::replay_args(&[("cert", cert::HARNESSES), ("sig", sig::HARNESSES)])
}

/// In place of the formatting of error texts.
#[cfg(kani)]
pub fn no_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
