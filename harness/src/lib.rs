//! Kani proof harnesses for fixed-map, one module per property (see /verif/DESIGN.md).
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]

pub mod nd;
#[macro_use]
pub mod util;
pub mod shapes;

macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        /// Every harness compiled in, by name, for native replay.
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend($m::all());)*
            v
        }
    };
}

modules! {
    c01 "c01" c02 "c02" c03 "c03" c04 "c04" c05 "c05" c06 "c06" c07 "c07" c08 "c08" c09 "c09"
    c10 "c10" c11 "c11" c12 "c12" c13 "c13" c14 "c14" c15 "c15" c16 "c16" c17 "c17" c18 "c18"
    c19 "c19" c20 "c20"
}
