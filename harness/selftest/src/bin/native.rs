fn main() {
    vs::native::main(&[h_selftest::HARNESSES]);
}
