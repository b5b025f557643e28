#![allow(clippy::all)]
#[cfg(kani)]
extern crate alloc;
pub mod sym;

macro_rules! modules {
    ($($f:literal => $m:ident),* $(,)?) => {
        $(
            #[cfg(feature = $f)]
            pub mod $m;
        )*
        #[cfg(not(kani))]
        pub fn registry() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(
                #[cfg(feature = $f)]
                v.extend_from_slice($m::LIST);
            )*
            v
        }
    };
}

modules! {
    "p01" => p01,
    "p02" => p02,
    "p03" => p03,
    "p04" => p04,
    "p05" => p05,
    "p06" => p06,
    "p07" => p07,
    "p08" => p08,
    "p09" => p09,
    "p16" => p16,
    "p21" => p21,
    "p27" => p27,
    "p13" => p13,
    "p15" => p15,
    "p22" => p22,
    "p23" => p23,
    "p24" => p24,
    "p25" => p25,
}
