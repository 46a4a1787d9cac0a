#![allow(dead_code, unused_imports, unused_macros)]
macro_rules! mods { ($($f:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> {
        #[allow(unused_mut)]
        let mut t = Vec::new();
        $( #[cfg(feature = $f)] t.extend($m::table()); )*
        t
    }
    #[cfg(not(kani))]
    pub fn bounded_table() -> Vec<(&'static str, u64, fn())> {
        #[allow(unused_mut)]
        let mut t = Vec::new();
        $( #[cfg(feature = $f)] t.extend($m::bounded_table()); )*
        t
    }
} }
#[cfg(not(kani))]
pub mod scratch;
#[cfg(all(not(kani), feature = "c19"))]
pub mod files;
mods! { "c19" c19 }
