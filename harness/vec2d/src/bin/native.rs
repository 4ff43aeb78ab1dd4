fn main() {
    vs::native::main(&[h_vec2d::HARNESSES]);
}
