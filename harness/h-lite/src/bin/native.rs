fn main() { sym::imp::main(h_lite::TABLE) }
