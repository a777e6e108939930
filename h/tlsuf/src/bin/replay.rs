fn main() {
    #[cfg(not(kani))]
    std::process::exit(vh_tlsuf::replay_main());
}
