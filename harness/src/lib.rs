//! Harnesses over dync's public API. Built by Kani for the solver, natively for replay.
pub mod types;
pub mod vp;

macro_rules! modules {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::LIST);)*
            $(#[cfg(all(feature = $f, feature = "thorough"))] v.extend_from_slice($m::TLIST);)*
            v
        }
    };
}
modules!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15);
