fn main() {
    vs::native_main(&hdoc::entries());
}
