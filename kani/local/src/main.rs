#[cfg(not(kani))]
fn main() {
    sym::runner::main(vk_local::table(), vk_local::bounded_table())
}
#[cfg(kani)]
fn main() {}
