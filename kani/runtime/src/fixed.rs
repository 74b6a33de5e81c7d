//! Contracts of the fixed arrays stored in structures, for buffers of every length.
use crate::gen::*;
use bp3d_proto::codec::*;

fn num(be: bool, b: &[u8], at: usize, l: usize) -> u64 {
    let g = |i: usize| if i < l { (if be { b[at + l - 1 - i] } else { b[at + i] }) as u64 } else { 0 };
    g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56
}

fn low(v: u64, bytes: usize) -> u64 {
    if bytes >= 8 { v } else { v & ((1u64 << (8 * bytes)) - 1) }
}

macro_rules! arr {
    ($name:ident, $C:ident, $be:literal, $t:ty, $bits:literal) => {
        mod $name {
            use super::*;
            const L: usize = $bits / 8;
            #[kani::proof]
            fn get() {
                let b = any_slice();
                let a = ArrayCodec::<&[u8], $t, $C, $bits>::new(b);
                let i: usize = kani::any();
                kani::assume(i <= MAX && i * L + L <= b.len());
                kani::cover!(i > 1000 || b.len() > 20);
                let v = a.get_raw(i);
                assert!(v as u64 == num($be, b, i * L, L), "get_raw returns item i");
            }
            #[kani::proof]
            fn len() {
                let b = any_slice();
                let n = ArrayCodec::<&[u8], $t, $C, $bits>::new(b).len();
                assert!(n <= b.len() && n * L <= b.len() && b.len() < n * L + L, "len is the number of whole items");
                kani::cover!(true);
            }
            #[kani::proof]
            fn set() {
                let b = any_slice_mut();
                let n = b.len();
                let i: usize = kani::any();
                kani::assume(i <= MAX && i * L + L <= n);
                let j: usize = kani::any();
                kani::assume(j < n);
                kani::assume(j < i * L || j >= i * L + L);
                let before = b[j];
                let v: $t = kani::any();
                let mut a = ArrayCodec::<&mut [u8], $t, $C, $bits>::new(&mut *b);
                a.set_raw(i, v);
                assert!(num($be, b, i * L, L) == low(v as u64, L), "set_raw stores item i");
                assert!(b[j] == before, "set_raw changes nothing else");
                kani::cover!(true);
            }
            /// bounded: 4 items (the loop is in the standard library's chunk iterator)
            #[kani::proof]
            #[kani::unwind(6)]
            fn bounded_iter() {
                let b: [u8; 4 * L] = kani::any();
                let a = ArrayCodec::<&[u8], $t, $C, $bits>::new(&b);
                let mut n = 0;
                for v in a.iter_raw() {
                    assert!(n < 4 && v as u64 == num($be, &b, n * L, L), "iter_raw yields the items in order");
                    n += 1;
                }
                assert!(n == 4, "iter_raw yields every item");
            }
        }
    }
}

arr!(u8_le, ByteCodecLE, false, u8, 8);
arr!(u8_be, ByteCodecBE, true, u8, 8);
arr!(u16_le, ByteCodecLE, false, u16, 16);
arr!(u16_be, ByteCodecBE, true, u16, 16);
arr!(u24_le, ByteCodecLE, false, u32, 24);
arr!(u24_be, ByteCodecBE, true, u32, 24);
arr!(u32_le, ByteCodecLE, false, u32, 32);
arr!(u32_be, ByteCodecBE, true, u32, 32);
arr!(u40_le, ByteCodecLE, false, u64, 40);
arr!(u40_be, ByteCodecBE, true, u64, 40);
arr!(u48_le, ByteCodecLE, false, u64, 48);
arr!(u48_be, ByteCodecBE, true, u64, 48);
arr!(u56_le, ByteCodecLE, false, u64, 56);
arr!(u56_be, ByteCodecBE, true, u64, 56);
arr!(u64_le, ByteCodecLE, false, u64, 64);
arr!(u64_be, ByteCodecBE, true, u64, 64);
