fn main() {
    // never touch, and never depend on, the user's files
    unsafe {
        std::env::set_var("TOMBI_CACHE_HOME", "/dev/null/none");
        std::env::set_var("HOME", "/dev/null/none");
        std::env::set_var("XDG_CONFIG_HOME", "/dev/null/none");
    }
    std::env::set_current_dir("/dev").unwrap();
    vs::native_main(&hlsp::entries());
}
