#[cfg(not(kani))]
fn main() {
    sym::runner::main(vk_core::table(), vk_core::bounded_table())
}
#[cfg(kani)]
fn main() {}
