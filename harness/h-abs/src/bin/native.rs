fn main() { sym::imp::main(h_abs::TABLE) }
