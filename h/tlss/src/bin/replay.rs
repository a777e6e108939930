fn main() {
    #[cfg(not(kani))]
    std::process::exit(vh_tlss::replay_main());
}
