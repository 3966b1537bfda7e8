fn main() { sym::imp::main(h_lsp::TABLE) }
