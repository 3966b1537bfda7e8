fn main() { sym::imp::main(h_host::TABLE) }
