fn main() {
    // never touch the user's cache directory
    unsafe { std::env::set_var("TOMBI_CACHE_HOME", "/dev/null/none") };
    vs::native_main(&hser::entries());
}
