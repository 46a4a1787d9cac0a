#![allow(dead_code, unused_imports, unused_macros)]
pub mod types;
pub mod util;
macro_rules! mods { ($($f:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn table() -> Vec<(&'static str, fn())> {
        #[allow(unused_mut)]
        let mut t = Vec::new();
        $( #[cfg(feature = $f)] t.extend($m::table()); )*
        #[cfg(feature = "c01")]
        t.extend(c01::deep::table());
        #[cfg(feature = "c02")]
        t.extend(c02::deep::table());
        #[cfg(feature = "c03")]
        t.extend(c03::deep::table());
        #[cfg(feature = "c06")]
        t.extend(c06::deep::table());
        t
    }
    #[cfg(not(kani))]
    pub fn bounded_table() -> Vec<(&'static str, u64, fn())> {
        #[allow(unused_mut)]
        let mut t = Vec::new();
        $( #[cfg(feature = $f)] t.extend($m::bounded_table()); )*
        t
    }
} }
mods! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c16" c16, "c17" c17, "c18" c18 }
