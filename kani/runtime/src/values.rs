//! Contracts of the numbers stored in messages.
use crate::gen::*;
use crate::sink::*;
use bp3d_proto::message::{Error, FromSlice, WriteTo};
use bp3d_proto::message::util::{ValueBE, ValueLE};

fn num(be: bool, b: &[u8], l: usize) -> u64 {
    let g = |i: usize| if i < l { (if be { b[l - 1 - i] } else { b[i] }) as u64 } else { 0 };
    g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56
}

macro_rules! val {
    ($name:ident, $V:ident, $be:literal, $t:ty, $l:literal, $bits:expr, $of:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            fn decode() {
                let s = any_slice();
                let r = <$V<$t> as FromSlice>::from_slice(s);
                kani::cover!(r.is_ok());
                kani::cover!(r.is_err());
                match r {
                    Ok(m) => {
                        assert!(s.len() >= $l, "a truncated number is rejected");
                        assert!(m.size() == $l, "the size consumed is the size of the number");
                        let v: u64 = ($bits)(m.into_inner());
                        assert!(v == num($be, s, $l), "the number is read in the declared byte order");
                    },
                    Err(e) => {
                        assert!(s.len() < $l, "a complete number is accepted");
                        assert!(matches!(e, Error::Truncated), "the error is a truncation");
                    }
                }
            }
            #[kani::proof]
            fn encode() {
                let bits: u64 = kani::any();
                let v: $t = ($of)(bits);
                let mut w = Rec::new();
                assert!(<$V<$t> as WriteTo>::write_to(&v, &mut w).is_ok(), "writing succeeds");
                let mask = if $l == 8 { u64::MAX } else { (1u64 << (8 * ($l % 8))) - 1 };
                assert!(w.total == $l && w.bodies == 0, "exactly the size of the number is written");
                let got = if $be { w.head_be($l) } else { w.head() };
                assert!(got == bits & mask, "the number is written in the declared byte order");
            }
            #[kani::proof]
            fn faults() {
                let bits: u64 = kani::any();
                let v: $t = ($of)(bits);
                let mut w = Rec::new();
                let budget: usize = kani::any();
                kani::assume(budget <= 9);
                w.budget = budget;
                let r = <$V<$t> as WriteTo>::write_to(&v, &mut w);
                assert!(r.is_ok() == (budget >= $l), "a failure of the writer is reported");
                assert!(w.total <= $l, "nothing more than the number is written");
                std::mem::forget(r);
            }
        }
    }
}

macro_rules! both {
    ($le:ident, $be:ident, $t:ty, $l:literal, $bits:expr, $of:expr) => {
        val!($le, ValueLE, false, $t, $l, $bits, $of);
        val!($be, ValueBE, true, $t, $l, $bits, $of);
    }
}

both!(u8_le, u8_be, u8, 1, |v: u8| v as u64, |b: u64| b as u8);
both!(u16_le, u16_be, u16, 2, |v: u16| v as u64, |b: u64| b as u16);
both!(u32_le, u32_be, u32, 4, |v: u32| v as u64, |b: u64| b as u32);
both!(u64_le, u64_be, u64, 8, |v: u64| v, |b: u64| b);
both!(i8_le, i8_be, i8, 1, |v: i8| v as u8 as u64, |b: u64| b as i8);
both!(i16_le, i16_be, i16, 2, |v: i16| v as u16 as u64, |b: u64| b as i16);
both!(i32_le, i32_be, i32, 4, |v: i32| v as u32 as u64, |b: u64| b as i32);
both!(i64_le, i64_be, i64, 8, |v: i64| v as u64, |b: u64| b as i64);
both!(f32_le, f32_be, f32, 4, |v: f32| v.to_bits() as u64, |b: u64| f32::from_bits(b as u32));
both!(f64_le, f64_be, f64, 8, |v: f64| v.to_bits(), |b: u64| f64::from_bits(b));
