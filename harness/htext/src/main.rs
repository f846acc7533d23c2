fn main() {
    vs::native_main(&htext::entries());
}
