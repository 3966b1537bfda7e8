fn main() { sym::imp::main(h_wasm::TABLE) }
