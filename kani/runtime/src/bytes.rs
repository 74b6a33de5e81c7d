//! Contracts of the byte codecs: a value of `L` bytes is the base 256 number written in these bytes,
//! least significant first (LE) or last (BE); writing stores the `L` low bytes of the value.
use bp3d_proto::codec::*;

/// the number denoted by `b`
fn num<const BE: bool>(b: &[u8]) -> u64 {
    let g = |i: usize| if i < b.len() { (if BE { b[b.len() - 1 - i] } else { b[i] }) as u64 } else { 0 };
    g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56
}

fn low(v: u64, bytes: usize) -> u64 {
    if bytes >= 8 { v } else { v & ((1u64 << (8 * bytes)) - 1) }
}

macro_rules! rw {
    ($name:ident, $C:ident, $be:literal, $t:ty, $conv:expr, $unconv:expr, [$($l:literal)*]) => {
        #[kani::proof]
        fn $name() {
            $({
                let b: [u8; $l] = kani::any();
                let v: $t = <$C as ByteCodec>::read::<$t>(&b);
                let bits: u64 = ($conv)(v);
                assert!(bits == num::<$be>(&b), "read returns the number stored in the bytes");
                let old: [u8; $l] = kani::any();
                let mut b = old;
                let bits: u64 = kani::any();
                let v: $t = ($unconv)(bits);
                <$C as ByteCodec>::write::<$t>(&mut b, v);
                assert!(num::<$be>(&b) == low(bits, $l), "write stores the low bytes of the value");
            })*
        }
    }
}

macro_rules! both {
    ($le:ident, $be:ident, $t:ty, $conv:expr, $unconv:expr, $l:tt) => {
        rw!($le, ByteCodecLE, false, $t, $conv, $unconv, $l);
        rw!($be, ByteCodecBE, true, $t, $conv, $unconv, $l);
    }
}

both!(u8_le, u8_be, u8, |v: u8| v as u64, |b: u64| b as u8, [1]);
both!(u16_le, u16_be, u16, |v: u16| v as u64, |b: u64| b as u16, [1 2]);
both!(u32_le, u32_be, u32, |v: u32| v as u64, |b: u64| b as u32, [1 2 3 4]);
both!(u64_le, u64_be, u64, |v: u64| v, |b: u64| b, [1 2 3 4 5 6 7 8]);
both!(i8_le, i8_be, i8, |v: i8| v as u8 as u64, |b: u64| b as i8, [1]);
both!(i16_le, i16_be, i16, |v: i16| v as u16 as u64, |b: u64| b as i16, [2]);
both!(i32_le, i32_be, i32, |v: i32| v as u32 as u64, |b: u64| b as i32, [4]);
both!(i64_le, i64_be, i64, |v: i64| v as u64, |b: u64| b as i64, [8]);
both!(f32_le, f32_be, f32, |v: f32| v.to_bits() as u64, |b: u64| f32::from_bits(b as u32), [4]);
both!(f64_le, f64_be, f64, |v: f64| v.to_bits(), |b: u64| f64::from_bits(b), [8]);
