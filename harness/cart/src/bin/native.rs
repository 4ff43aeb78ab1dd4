fn main() {
    vs::native::main(&[h_cart::HARNESSES]);
}
