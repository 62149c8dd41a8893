//! Harnesses: one module per property, one entry point per symbolic run.

#![allow(dead_code)]

#[macro_use]
pub mod sym;
pub mod spec;
pub mod model;

#[cfg(feature = "replay")]
#[path = "../../replay/src/rt.rs"]
pub mod replay_rt;

macro_rules! modules {
    ($($feature:literal $name:ident),* $(,)?) => {
        $(
            #[cfg(feature = $feature)]
            pub mod $name;
        )*

        #[cfg(feature = "replay")]
        pub fn entry_points() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(
                #[cfg(feature = $feature)]
                v.extend_from_slice($name::TABLE);
            )*
            v
        }
    };
}

modules! {
    "l01" l01,
    "l02" l02,
    "i01" i01,
    "i02" i02,
    "i03" i03,
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "d01" d01,
    "d02" d02,
    "d03" d03,
    "d04" d04,
    "d05" d05,
    "b01" b01,
    "b02" b02,
    "b03" b03,
    "b04" b04,
    "u01" u01,
    "u02" u02,
    "u03" u03,
    "e01" e01,
    "e02" e02,
    "e03" e03,
    "s01" s01,
    "s02" s02,
    "s03" s03,
    "s04" s04,
    "s05" s05,
    "s06" s06,
    "s07" s07,
    "s08" s08,
    "s09" s09,
    "m01" m01,
    "m02" m02,
    "m03" m03,
    "m04" m04,
    "m05" m05,
    "m06" m06,
    "t01" t01,
    "t02" t02,
    "t03" t03,
    "val" val,
}
