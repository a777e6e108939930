fn main() {
    #[cfg(not(kani))]
    std::process::exit(vh_tlspki::replay_main());
}
