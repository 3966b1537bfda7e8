fn main() { sym::imp::main(h_lsif::TABLE) }
