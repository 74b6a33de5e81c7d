//! Symbolic inputs. Without the feature `small` a byte slice has a symbolic length up to 2^40, no
//! loop runs over its content and the proofs cover inputs of every length. With the feature `small`
//! (only used to obtain a counterexample which can be executed) the slice is short.

pub const MAX: usize = 1 << 40;
#[cfg(not(feature = "tiny"))]
pub const SMALL: usize = 24;
#[cfg(feature = "tiny")]
pub const SMALL: usize = 5;

#[cfg(not(feature = "small"))]
pub fn any_slice_mut() -> &'static mut [u8] {
    let n: usize = kani::any();
    kani::assume(n <= MAX);
    let layout = std::alloc::Layout::from_size_align(n + 1, 1).unwrap();
    let p = unsafe { std::alloc::alloc(layout) };
    kani::assume(!p.is_null());
    unsafe { std::slice::from_raw_parts_mut(p, n) }
}

#[cfg(feature = "small")]
pub fn any_slice_mut() -> &'static mut [u8] {
    let b: [u8; SMALL] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= SMALL);
    &mut Box::leak(Box::new(b))[..n]
}

pub fn any_slice() -> &'static [u8] {
    any_slice_mut()
}

/// A short input with a bound: used where the code loops over the content.
pub fn any_short<const N: usize>() -> &'static [u8] {
    let b: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N);
    &Box::leak(Box::new(b))[..n]
}

/// Same memory, same length.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.len() == 0 || a.as_ptr() == b.as_ptr())
}

/// Content which is only moved around by the code under verification (never looked into).
#[cfg(not(feature = "small"))]
pub fn any_body() -> &'static [u8] {
    any_slice()
}

#[cfg(feature = "small")]
pub fn any_body() -> &'static [u8] {
    static ZERO: [u8; 70000] = [0; 70000];
    let n: usize = kani::any();
    kani::assume(n <= 70000);
    &ZERO[..n]
}
