fn main() {
    #[cfg(not(kani))]
    std::process::exit(vh_tls::replay_main());
}
