//! Entry points of the analysis: each function is one use of the public API at a concrete type, so that generic and
//! default methods have an instance in the dump.  Nothing here is ever executed.
#![cfg_attr(not(feature = "full"), allow(unused))]

pub fn f(i: &fuel_tx::Input) -> bool {
    i.is_coin()
}

#[cfg(any(feature = "full", feature = "nostd"))]
pub mod full;
