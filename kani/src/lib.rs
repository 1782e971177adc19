//! Contracts checked by Kani on the compiled crate, for every argument value (no loop bound unless a harness says so).
#![allow(dead_code)]
#[cfg(kani)] mod any;
#[cfg(kani)] mod t13;
#[cfg(kani)] mod t17;
#[cfg(kani)] mod t18;
