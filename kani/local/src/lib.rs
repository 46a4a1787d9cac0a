#![allow(dead_code, unused_imports, unused_macros)]
macro_rules! mods { ($($f:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> {
        #[allow(unused_mut)]
        let mut t = Vec::new();
        $( #[cfg(feature = $f)] t.extend($m::table()); )*
        #[cfg(feature = "c13")]
        t.extend(c13::deep::table());
        t
    }
    #[cfg(not(kani))]
    pub fn bounded_table() -> Vec<(&'static str, u64, fn())> {
        #[allow(unused_mut)]
        let mut t = Vec::new();
        $( #[cfg(feature = $f)] t.extend($m::bounded_table()); )*
        t
    }
} }
#[cfg(any(feature = "c13", feature = "c14", feature = "c15"))]
pub mod world;
#[cfg(all(not(kani), any(feature = "c13", feature = "c14", feature = "c15")))]
pub mod history;
#[cfg(not(kani))]
pub mod scratch;
mods! { "c13" c13, "c14" c14, "c15" c15 }
