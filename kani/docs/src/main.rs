#[cfg(not(kani))]
fn main() {
    sym::runner::main(vk_docs::table(), vk_docs::bounded_table())
}
#[cfg(kani)]
fn main() {}
