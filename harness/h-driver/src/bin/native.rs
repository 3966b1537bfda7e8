fn main() { sym::imp::main(h_driver::TABLE) }
