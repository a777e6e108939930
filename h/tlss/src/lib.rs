//! Harnesses over the real tls-core built with the reduced record-size constant (`tlsn_verif_small`).
pub mod deframe;

#[cfg(not(kani))]
pub fn replay_main() -> i32 {
    vk::replay_args(&[("deframe", deframe::HARNESSES)])
}
