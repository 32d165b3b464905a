#![allow(warnings)]
#![allow(static_mut_refs)]
macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    };
}
pub mod model;
pub mod node;
pub mod files;
pub mod http;
modules!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c27 "c27", c18 "c18", c26 "c26", idioms "idioms");
