//! Contracts of the functions of the compiler which decide the layout of structures and messages.
#![allow(dead_code, unused)]
#![cfg_attr(kani, feature(allocator_api))]
#[cfg(kani)]
#[macro_use]
mod macros;
#[cfg(kani)]
mod env;
#[cfg(kani)]
mod layout;
#[cfg(kani)]
mod messages;
#[cfg(kani)]
mod whole;
#[cfg(kani)]
mod unions;
