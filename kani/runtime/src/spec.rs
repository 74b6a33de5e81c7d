//! Mathematical description of the wire format of a bit field, written from the documentation of
//! the format and independent of the code under verification.
//!
//! Little endian: bit `i` of the value (0 = least significant) is bit `(o + i) % 8` of byte
//! `(o + i) / 8`, 0 being the least significant bit of a byte.
//! Big endian: bit `n - 1 - i` of the value is bit `7 - (o + i) % 8` of byte `(o + i) / 8`.

pub fn mask(bits: usize) -> u64 {
    if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }
}

fn window<const BE: bool>(b: &[u8]) -> u128 {
    // at most 9 bytes can hold a 64 bits field at any bit offset below 8
    let g = |i: usize| if i < b.len() { b[i] as u128 } else { 0 };
    if BE {
        g(0) << 64 | g(1) << 56 | g(2) << 48 | g(3) << 40 | g(4) << 32 | g(5) << 24 | g(6) << 16 | g(7) << 8 | g(8)
    } else {
        g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56 | g(8) << 64
    }
}

fn shift<const BE: bool>(o: usize, n: usize) -> usize {
    if BE { 72 - o - n } else { o }
}

/// The value of the field of `n` bits starting `o` bits (0..8) inside `b`.
pub fn field<const BE: bool>(b: &[u8], o: usize, n: usize) -> u64 {
    ((window::<BE>(b) >> shift::<BE>(o, n)) as u64) & mask(n)
}

/// True if `new` is `old` with the field of `n` bits starting at `o` replaced by the `n` low bits of `v`.
pub fn updated<const BE: bool>(old: &[u8], new: &[u8], o: usize, n: usize, v: u64) -> bool {
    let m = (mask(n) as u128) << shift::<BE>(o, n);
    let w = ((v & mask(n)) as u128) << shift::<BE>(o, n);
    old.len() == new.len() && window::<BE>(new) == (window::<BE>(old) & !m) | w
}

/// The number in the first `l` bytes of `b` (missing bytes count as 0).
pub fn num(be: bool, b: &[u8], l: usize) -> u64 {
    let g = |i: usize| if i < l && i < b.len() { (if be { if l - 1 - i < b.len() { b[l - 1 - i] } else { 0 } } else { b[i] }) as u64 } else { 0 };
    g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56
}
