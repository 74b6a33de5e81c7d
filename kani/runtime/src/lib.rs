#![allow(dead_code, unused)]
#[cfg(kani)] mod spec;
#[cfg(kani)] mod gen;
#[cfg(kani)] mod bits;
#[cfg(kani)] mod bytes;
#[cfg(kani)] mod fixed;
#[cfg(kani)] mod sink;
#[cfg(kani)] mod values;
#[cfg(kani)] mod strings;
#[cfg(kani)] mod opt;
#[cfg(kani)] mod lists;
#[cfg(kani)] mod marrays;
