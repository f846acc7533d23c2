fn main() {
    vs::native_main(&hcore::entries());
}
