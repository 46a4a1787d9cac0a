#[cfg(not(kani))]
fn main() {
    sym::runner::main(vk_files::table(), vk_files::bounded_table())
}
#[cfg(kani)]
fn main() {}
