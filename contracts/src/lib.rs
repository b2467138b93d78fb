#![recursion_limit = "1024"]
#![allow(unused_imports, unused_macros, unused_mut)]
#![allow(non_snake_case, non_camel_case_types)]
#[macro_use]
pub mod core;
#[cfg(not(kani))]
pub mod cal;
#[cfg(not(kani))]
pub mod strs;

/// Modules and the contract groups they register; target names are `<module>::<group>::<function>`.
/// Each module has a feature of its own, so that a check builds only what its property needs.
macro_rules! reg { ($($f:literal $m:ident : $($g:ident),*;)*) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn all_targets() -> Vec<core::Target> {
        let mut v = vec![];
        $( #[cfg(feature = $f)] { $( for t in $m::$g::TARGETS {
            v.push(core::Target { name: Box::leak(format!("{}::{}", stringify!($m), t.name).into_boxed_str()), run: t.run });
        } )* } )*
        v
    }
} }
include!("registry.rs");
