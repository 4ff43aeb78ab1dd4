fn main() {
    vs::native::main(&[h_rec::HARNESSES]);
}
