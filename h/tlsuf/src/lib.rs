//! Harnesses over the real tls-core with HMAC as an uninterpreted function.
pub mod prf;

#[cfg(not(kani))]
pub fn replay_main() -> i32 {
    vk::replay_args(&[("prf", prf::HARNESSES)])
}
