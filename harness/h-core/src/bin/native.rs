fn main() { sym::imp::main(h_core::TABLE) }
